#!/usr/bin/env python3
"""check.py ID [quick|thorough]  -- builds /repo's current tree with the drivers, runs the
exhaustive exploration of property ID, writes evidence/ID.json.
exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed."""
import sys, os, json, time, subprocess, shutil, tempfile, re
V = os.path.dirname(os.path.abspath(__file__))
pid = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
seed = int(os.environ.get("VERIF_SEED", "1") or 1)
REPO = os.environ.get("REPO", "/repo")
t0 = time.time()
props = json.load(open(os.path.join(V, "mc", "registry.json")))
P = props[pid]
build = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
os.makedirs(build, exist_ok=True)
out = os.path.join(build, "run-%s-%d" % (pid, os.getpid()))
shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
replays = os.path.join(V, "replays"); os.makedirs(replays, exist_ok=True)

def die(msg):
    print("CHECK-ERROR: " + msg); sys.exit(2)

results = []
engines = P["engines"]
try:
    for e in engines:
        sub = os.path.join(out, e.replace("/", "_")); os.makedirs(sub)
        if e in ("mc", "mcbf"):
            r = subprocess.run([os.path.join(V, "mc", "build.sh"), build, e])
            if r.returncode: die("build failed")
            # run a private copy so that a concurrent rebuild cannot replace it
            exe = os.path.join(sub, e); shutil.copy(os.path.join(build, e), exe)
            cmd = [exe, pid, tier, sub]
        else:
            cmd = [sys.executable, os.path.join(V, "mc", "py", e), pid, tier, sub, REPO]
        r = subprocess.run(cmd, cwd=sub)
        if not os.path.exists(os.path.join(sub, "result.json")): die("engine %s gave no result (exit %s)" % (e, r.returncode))
        res = json.load(open(os.path.join(sub, "result.json")))
        viol = []; drv = "?"
        for l in open(os.path.join(sub, "viol.tsv"), errors="replace"):
            f = l.rstrip("\n").split("\t")
            if f[0] == "#driver": drv = f[1]; continue
            viol.append((drv, f[0], f[1], re.sub(r"\\\\(.)", lambda m: {"n": "\n", "t": "\t"}.get(m.group(1), m.group(1)), f[2]) if len(f) > 2 else ""))
        samp = [l.rstrip("\n").replace("\\n", "\n") for l in open(os.path.join(sub, "samples.txt"), errors="replace")] if os.path.exists(os.path.join(sub, "samples.txt")) else []
        results.append((e, res, viol, samp))
finally:
    pass

# known findings: "KNOWN property=<id> key=<driver>/<key> <what fails>"
known = {}
for l in open(os.path.join(V, "known_findings.txt")):
    m = re.match(r"KNOWN property=(\S+) key=(\S+) (.*)", l)
    if m and m.group(1) == pid: known[m.group(2)] = m.group(3)

c = {}
for e, res, viol, samp in results:
    for k, v in res["counters"].items(): c[k] = c.get(k, 0) + v
new = []; hit = {}
capped = False
for e, res, viol, samp in results:
    if res["counters"].get("violations", 0) > len(viol): capped = True
    for (drv, idx, key, det) in viol:
        kk = key if key in known else drv + "/" + key
        if kk in known: hit[kk] = hit.get(kk, 0) + 1
        else: new.append((e, drv, idx, key, det))
for k in sorted(hit): print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
samples = [s for _, _, _, sm in results for s in sm][:6]
total = sum(r["counters"].get("violations", 0) for _, r, _, _ in results)
if capped and not new: new.append(("?", "?", "-1", "overflow", "more violations than are recorded individually (%d)" % total))
notes = {}
for _, r, _, _ in results: notes.update(r.get("notes", {}))
drivers = [d for _, r, _, _ in results for d in r["drivers"]]
cov = {"states": c.get("states", 0), "transitions": c.get("transitions", 0), "traces_validated_against_impl": c.get("traces", 0),
       "executions_of_the_real_code": c.get("runs", 0), "instances": c.get("instances", 0), "nontrivial_instances": c.get("nontrivial", 0),
       "families": drivers, "exhaustive": all(d.get("instances") == d.get("space") for d in drivers) and not notes.get("capped"), "samples": samples or ["(none recorded)"]}
if c.get("reorderings"): cov["bdd_reorderings_forced"] = c["reorderings"]
for k, v in (P.get("counter_names") or {}).items(): cov[v] = c.get(k, 0)
if notes: cov["notes"] = notes
ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
      "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
rc = 0
if cov["instances"] == 0 or c.get("runs", 0) == 0: shutil.rmtree(out, ignore_errors=True); die("nothing was explored")
if new:
    rc = 1
    rp = os.path.join(replays, "%s.txt" % pid)
    with open(rp, "w") as f:
        f.write("property %s, %d violation(s) not listed as known findings\n" % (pid, len(new)))
        for (e, drv, idx, key, det) in new[:40]:
            f.write("\n==== engine %s family %s index %s key %s\n" % (e, drv, idx, key))
            if e in ("mc", "mcbf"): f.write("replay: mc/build.sh build %s && build/%s %s %s /tmp --replay %s:%s\n" % (e, e, pid, tier, drv, idx))
            f.write(det + "\n")
    print("VIOLATION property=%s replay=%s" % (pid, rp))
    print(new[0][4][:3000])
else:
    print("OK property=%s tier=%s instances=%d runs=%d states=%d transitions=%d wall=%.1fs" % (pid, tier, c.get("instances", 0), c.get("runs", 0), c.get("states", 0), c.get("transitions", 0), time.time() - t0))
shutil.rmtree(out, ignore_errors=True)
sys.exit(rc)
