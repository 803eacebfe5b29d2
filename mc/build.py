#!/usr/bin/env python3
"""Out-of-tree build of /repo's current sources plus the drivers in this directory.
Every object is keyed by the hash of (command line, all headers, its source), so a
stale object can never be used for a changed tree."""
import sys, os, glob, hashlib, subprocess
from concurrent.futures import ThreadPoolExecutor

repo, here, out = sys.argv[1:4]
target = sys.argv[4] if len(sys.argv) > 4 else "mc"     # mc: command-line drivers; mcbf: BDD-layer drivers
src = os.path.join(repo, "src")
cudd = os.path.join(repo, "lib/cudd-3.0.0")
objdir = os.path.join(out, "obj")
os.makedirs(objdir, exist_ok=True)

gen = os.path.join(objdir, "optgen")
subprocess.check_call(["gcc", os.path.join(src, "BFAbstractionLibrary/compilerOptionGenerator.c"), "-o", gen])
OPTIONS = subprocess.check_output([gen], text=True).split()
# config.h is generated by CUDD's configure and not tracked: take the one in the tree when it is
# there, otherwise the copy kept beside this script.
cfgdir = os.path.join(objdir, "cfg")
os.makedirs(cfgdir, exist_ok=True)
cfgsrc = os.path.join(here, "cudd_config.h")
open(os.path.join(cfgdir, "config.h"), "wb").write(open(cfgsrc, "rb").read())
INC = ["-I" + cfgdir, "-I" + src] + ["-I" + cudd] + ["-I" + os.path.join(cudd, d) for d in ("cudd", "mtr", "epd", "st", "util", "dddmp")] \
    + ["-I" + os.path.join(src, "BFAbstractionLibrary")]
DEF = ["-DUSE_CUDD", "-DNDEBUG"]
COMMON = ["-pipe", "-w", "-fPIC"] + OPTIONS + DEF + INC

def headers(globs):
    h = hashlib.sha256()
    for g in globs:
        for f in sorted(glob.glob(g)):
            h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()

hC = headers([cudd + "/*/*.h", cfgdir + "/*.h"])
hS = hC + headers([src + "/*.hpp", src + "/BFAbstractionLibrary/*.h"])
hD = hS + headers([here + "/*.hpp"])

units = []   # (source, cmd, headerhash)
def add(s, cmd, hh): units.append((s, cmd, hh))
csrc = []
for d, skip in (("cudd", ("testcudd", "testextra")), ("mtr", ("testmtr",)), ("epd", ()), ("st", ("testst",)),
                ("util", ("cpu_stats",)), ("dddmp", ("testdddmp",))):
    for f in sorted(glob.glob(os.path.join(cudd, d, "*.c"))):
        if os.path.basename(f)[:-2] in skip: continue
        add(f, ["gcc", "-O1", "-g1"] + COMMON, hC)
for f in ["synthesisAlgorithm.cpp", "synthesisContextBasics.cpp", "tools.cpp", "variableManager.cpp"] + \
         ["BFAbstractionLibrary/" + x for x in ("bddDump.cpp", "BFCuddManager.cpp", "BFCuddVarCube.cpp", "BFCudd.cpp", "BFCuddMintermEnumerator.cpp", "BFCuddVarVector.cpp")]:
    add(os.path.join(src, f), ["g++", "-std=c++11", "-O1", "-g1"] + COMMON, hS)
common = ["harness.cpp", "spec.cpp", "family.cpp", "strategy.cpp"]
if target == "mc":
    add(os.path.join(src, "main.cpp"), ["g++", "-std=c++11", "-O0", "-Dmain=slugs_main"] + COMMON, hS)
    mine = common + [os.path.basename(f) for f in glob.glob(os.path.join(here, "p_*.cpp"))]
else:
    mine = common + ["nomain.cpp"] + [os.path.basename(f) for f in glob.glob(os.path.join(here, "b_*.cpp"))]
for f in sorted(mine):
    add(os.path.join(here, f), ["g++", "-std=c++17", "-O2", "-g1", "-I" + here] + COMMON, hD)

def compile_one(u):
    s, cmd, hh = u
    key = hashlib.sha256((" ".join(cmd) + s + hh).encode() + open(s, "rb").read()).hexdigest()[:24]
    o = os.path.join(objdir, os.path.basename(s) + "." + key + ".o")
    if not os.path.exists(o):
        tmp = o + ".%d.tmp" % os.getpid()
        r = subprocess.run(cmd + ["-c", s, "-o", tmp], stderr=subprocess.PIPE, text=True)
        if r.returncode:
            return (s, r.stderr)
        os.rename(tmp, o)
    return o

# big units first
units.sort(key=lambda u: -(10**9 if u[0].endswith("main.cpp") else os.path.getsize(u[0])))
with ThreadPoolExecutor(8) as ex:
    res = list(ex.map(compile_one, units))
bad = [r for r in res if isinstance(r, tuple)]
if bad:
    for s, e in bad:
        sys.stderr.write("BUILD-ERROR %s\n%s\n" % (s, e[:4000]))
    sys.exit(3)
exe = os.path.join(out, target)
wraps = ["Cudd_Init", "rand"]
tmp = exe + ".%d.tmp" % os.getpid()
r = subprocess.run(["g++", "-o", tmp] + sorted(res) + ["-Wl,--wrap=" + w for w in wraps] + ["-lpthread", "-lm"], stderr=subprocess.PIPE, text=True)
if r.returncode:
    sys.stderr.write("LINK-ERROR\n" + r.stderr[:4000] + "\n"); sys.exit(3)
os.rename(tmp, exe)
# bound the cache: drop the objects not used for longest
olds = sorted(glob.glob(objdir + "/*.o"), key=os.path.getatime)
for o in res: os.utime(o)
for f in olds[:-600]:
    if f not in set(res): os.unlink(f)
