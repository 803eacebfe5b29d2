"""Shared by the Python engines: an index space explored by 8 workers, counters, violations, samples."""
import sys, os, json, time, hashlib, subprocess, tempfile, shutil, traceback
from multiprocessing import Pool, current_process
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'; sys.dont_write_bytecode = True
PID, TIER, OUT, REPO = sys.argv[1:5]
T = TIER == "thorough"
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(os.path.dirname(HERE))
BASE = tempfile.mkdtemp(prefix="mcpy-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp")
def scratch():
    d = os.path.join(BASE, "w%d" % os.getpid()); os.makedirs(d, exist_ok=True); return d
class Ctx:
    def __init__(s): s.c = {}; s.v = []; s.s = []
    def add(s, k, n=1): s.c[k] = s.c.get(k, 0) + n
    def violation(s, key, detail): s.add("violations"); s.v.append((hashlib.sha256(key.encode()).hexdigest()[:16], detail[:6000]))
    def sample(s, t): s.s.append(t)
def _run(a):
    body, i, item = a
    c = Ctx()
    try: body(item, c)
    except Exception: c.violation("exception:%r" % (item,), "the check could not evaluate this instance\n" + traceback.format_exc()[-3000:] + "\n" + repr(item)[:2000])
    c.add("instances")
    return i, c.c, c.v, c.s
def explore(drivers):
    """drivers: list of (id, items, body[, weight]); every item is one work package"""
    tot = {}; js = []
    fv = open(os.path.join(OUT, "viol.tsv"), "w"); fs = open(os.path.join(OUT, "samples.txt"), "w"); ns = 0
    esc = lambda t: t.replace("\\", "\\\\").replace("\n", "\\n").replace("\t", "\\t")
    try:
        with Pool(8) as pool:
            for d, items, body in drivers:
                t0 = time.time(); fv.write("#driver\t%s\n" % d); items = list(items); before = dict(tot); k = 0
                for i, cc, vv, ss in pool.imap_unordered(_run, [(body, i, x) for i, x in enumerate(items)], chunksize=1):
                    for q, n in cc.items(): tot[q] = tot.get(q, 0) + n
                    for key, det in vv: fv.write("%d\t%s\t%s\n" % (i, key, esc(det)))
                    for t in ss[:1]:
                        if k < 3: fs.write(esc(t)[:1500] + "\n"); k += 1
                df = {q: tot.get(q, 0) - before.get(q, 0) for q in tot}
                js.append(dict(id=d, space=len(items), instances=df.get("instances", 0), runs=df.get("runs", 0), violations=df.get("violations", 0), wall_s=round(time.time() - t0, 2)))
                sys.stderr.write("[%s/%s] space=%d instances=%d runs=%d violations=%d %.1fs\n" % (PID, d, len(items), df.get("instances", 0), df.get("runs", 0), df.get("violations", 0), time.time() - t0))
    finally:
        fv.close(); fs.close(); shutil.rmtree(BASE, ignore_errors=True)
    for k in ("instances", "runs", "states", "transitions", "traces", "nontrivial", "a", "b", "violations"): tot.setdefault(k, 0)
    json.dump(dict(drivers=js, counters=tot, notes={}), open(os.path.join(OUT, "result.json"), "w"))
def slugsBin():
    """builds the driver binary from /repo's current tree; 'BIN --slugs ARGS' is the program itself"""
    b = os.environ.get("VERIF_BUILD", os.path.join(V, "build")); r = subprocess.run([os.path.join(V, "mc", "build.sh"), b, "mc"], env=dict(os.environ, REPO=REPO))
    if r.returncode: sys.stderr.write("build failed\n"); sys.exit(2)
    p = os.path.join(BASE, "mc"); shutil.copy(os.path.join(b, "mc"), p); return p
def script(path, args=(), inp=None, timeout=120):
    """one of /repo's Python programs"""
    return subprocess.run([sys.executable, os.path.join(REPO, path)] + list(args), input=inp, capture_output=True, text=True, timeout=timeout)
