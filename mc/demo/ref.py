"""Small independent helper for the demonstrations: parses slugs specifications, solves the GR(1)
game explicitly, checks explicit strategies.  ref.py CMD ARGS..."""
import sys, subprocess, itertools, re
SL = "src/slugs"
def slugs(*a, inp=""):
    r = subprocess.run([SL] + list(a), input=inp, capture_output=True, text=True, timeout=120)
    return r.returncode, r.stdout, r.stderr
def verdict(err):
    return True if "is realizable" in err else False if "is unrealizable" in err else None
class Spec:
    def __init__(s, text):
        s.inp, s.out, s.f, s.text = [], [], {}, text
        cur = None
        for l in text.splitlines():
            l = l.strip()
            if not l or l[0] == "#": continue
            if l[0] == "[": cur = l.strip("[]"); continue
            if cur == "INPUT": s.inp.append(l)
            elif cur == "OUTPUT": s.out.append(l)
            else: s.f.setdefault(cur, []).append(l.split())
        s.names = s.inp + s.out
        s.ins = [dict(zip(s.inp, v)) for v in itertools.product([0, 1], repeat=len(s.inp))]
        s.outs = [dict(zip(s.out, v)) for v in itertools.product([0, 1], repeat=len(s.out))]
        s.A = s.f.get("ENV_LIVENESS") or [["1"]]; s.G = s.f.get("SYS_LIVENESS") or [["1"]]
    def ev(s, toks, pre, post):
        def r(i):
            t = toks[i]
            if t == "!": v, j = r(i + 1); return 1 - v, j
            if t in "&|^":
                a, j = r(i + 1); b, k = r(j)
                return (a & b if t == "&" else a | b if t == "|" else a ^ b), k
            if t in ("0", "1"): return int(t), i + 1
            if t[-1] == "'": return post[t[:-1]], i + 1
            return pre[t], i + 1
        v, j = r(0); assert j == len(toks), toks
        return v
    def all(s, sec, pre, post): return all(s.ev(f, pre, post) for f in s.f.get(sec, []))
    def eT(s, p, x): return s.all("ENV_TRANS", p, dict(x, **{o: 0 for o in s.out}))
    def sT(s, p, q): return s.all("SYS_TRANS", p, q)
    def states(s): return [dict(x, **y) for x in s.ins for y in s.outs]
    def key(s, p): return tuple(p[n] for n in s.names)
    def winning(s):
        S = s.states(); K = [s.key(p) for p in S]; Z = set(K)
        mv = {s.key(p): [(x, [(y, dict(x, **y)) for y in s.outs if s.sT(p, dict(x, **y))]) for x in s.ins if s.eT(p, x)] for p in S}
        pd = dict(zip(K, S))
        while True:
            Z2 = set(Z)
            for g in s.G:
                Y = set()
                while True:
                    Y2 = set(Y)
                    for a in s.A:
                        X = set(K)
                        while True:
                            X2 = {k for k in K if all(any((s.ev(g, pd[k], q) and s.key(q) in Z) or s.key(q) in Y or (not s.ev(a, pd[k], q) and s.key(q) in X) for _, q in ys) for _, ys in mv[k])}
                            if X2 == X: break
                            X = X2
                        Y2 |= X
                    if Y2 == Y: break
                    Y = Y2
                Z2 &= Y
            if Z2 == Z: return Z
            Z = Z2
    def realizable(s, rob=False):
        W = s.winning()
        if rob: return all(s.key(p) in W for p in s.states() if s.all("ENV_INIT", p, p) and s.all("SYS_INIT", p, p))
        return all(any(s.all("SYS_INIT", dict(x, **y), dict(x, **y)) and s.key(dict(x, **y)) in W for y in s.outs) for x in s.ins if s.all("ENV_INIT", dict(x, **{o: 0 for o in s.out}), {}))
def parse(txt):
    st = {}; cur = None
    for l in txt.splitlines():
        m = re.match(r"State (\d+) with rank (\d+) -> <(.*)>", l)
        if m:
            cur = int(m.group(1)); assert cur not in st
            st[cur] = [{k: int(v) for k, v in (x.strip().rsplit(":", 1) for x in m.group(3).split(","))}, int(m.group(2)), []]
        m = re.search(r"With successors : (.*)", l)
        if m: st[cur][2] = [int(x) for x in m.group(1).split(",") if x.strip()]
    return st
def scc_bad(n, edges, need, avoid):
    # is there a strongly connected set using edges without label `avoid` containing all labels in need?
    E = [(u, v, l) for (u, v, l) in edges if avoid not in l]
    adj = {u: set() for u in range(n)}
    for u, v, _ in E: adj[u].add(v)
    reach = []
    for u in range(n):
        seen = set(); todo = [u]
        while todo:
            for w in adj[todo.pop()]:
                if w not in seen: seen.add(w); todo.append(w)
        reach.append(seen)
    for u in range(n):
        if u in reach[u]:
            C = {v for v in reach[u] if u in reach[v]}
            have = set()
            for a, b, l in E:
                if a in C and b in C: have |= l
            if need <= have: return u
    return None
def check(sp, st, rob=False, recovery=False):
    """'' if the explicit strategy implements the specification"""
    W = None; ids = sorted(st); ix = {i: k for k, i in enumerate(ids)}; edges = []
    start = {sp.key(st[i][0]) for i in ids if st[i][1] == 0}
    if rob:
        for p in sp.states():
            if sp.all("ENV_INIT", p, p) and sp.all("SYS_INIT", p, p) and sp.key(p) not in start: return "initial position missing"
    else:
        for x in sp.ins:
            if sp.all("ENV_INIT", dict(x, **{o: 0 for o in sp.out}), {}) and not any(sp.all("SYS_INIT", dict(x, **y), {}) and sp.key(dict(x, **y)) in start for y in sp.outs): return "initial input not answered"
    for i in ids:
        p, r, succ = st[i]; seen = {}
        for j in succ:
            if j not in st: return "dangling successor"
            q = st[j][0]; x = {n: q[n] for n in sp.inp}; k = tuple(x[n] for n in sp.inp)
            if k in seen: return "nondeterministic in state %d" % i
            seen[k] = j
            if not sp.eT(p, x):
                if not recovery: return "successor for excluded input in state %d" % i
            if not sp.sT(p, q): return "unsafe transition %d -> %d" % (i, j)
            if sp.eT(p, x): edges.append((ix[i], ix[j], {("A", n) for n, f in enumerate(sp.A) if sp.ev(f, p, q)} | {("G", n) for n, f in enumerate(sp.G) if sp.ev(f, p, q)}))
        if recovery:
            W = W or sp.winning()
            for x in sp.ins:
                if not sp.eT(p, x) and tuple(x[n] for n in sp.inp) not in seen and any(sp.sT(p, dict(x, **y)) and sp.key(dict(x, **y)) in W for y in sp.outs): return "no recovery in state %d for %s" % (i, x)
        for x in sp.ins:
            if sp.eT(p, x) and tuple(x[n] for n in sp.inp) not in seen: return "state %d is stuck for input %s" % (i, x)
    for n in range(len(sp.G)):
        w = scc_bad(len(ids), edges, {("A", m) for m in range(len(sp.A))}, ("G", n))
        if w is not None: return "fair cycle through state %d starves guarantee %d" % (ids[w], n)
    return ""
def strategy(path, *opts):
    sp = Spec(open(path).read()); rc, out, err = slugs("--explicitStrategy", *opts, path)
    rob = "--sysInitRoboticsSemantics" in opts
    if rc or verdict(err) != sp.realizable(rob): return "verdict: %s" % err
    if not verdict(err): return ""
    return check(sp, parse(out), rob, "--simpleRecovery" in opts)
def counter(path, *opts):
    """'' if the explicit counterstrategy makes the environment win from every state it lists"""
    sp = Spec(open(path).read()); rc, out, err = slugs("--counterStrategy", *opts, path)
    if rc or verdict(err) != sp.realizable("--sysInitRoboticsSemantics" in opts): return "verdict: %s" % err
    st = {}; cur = None; edges = []
    for l in out.splitlines():
        m = re.match(r"State (\d+) with rank \(\d+,\d+\) -> <(.*)>", l)
        if m: cur = int(m.group(1)); st[cur] = [{k: int(v) for k, v in (x.strip().rsplit(":", 1) for x in m.group(2).split(","))}, []]
        m = re.search(r"With successors : (.*)", l)
        if m: st[cur][1] = [int(x) for x in m.group(1).split(",") if x.strip()]
    ids = sorted(st); ix = {i: k for k, i in enumerate(ids)}
    for i in ids:
        p, succ = st[i]
        if len(p) < len(sp.names): continue
        xs = {tuple(st[j][0][n] for n in sp.inp) for j in succ}
        if len(xs) != 1: return "no unique next input in state %d" % i
        x = dict(zip(sp.inp, xs.pop())); dead = [j for j in succ if len(st[j][0]) < len(sp.names)]
        if not sp.eT(p, x): return "forbidden input in state %d" % i
        ys = {sp.key(dict(x, **y)) for y in sp.outs if sp.sT(p, dict(x, **y))}
        if dead:
            if ys: return "state %d is not a dead end" % i
            continue
        if {sp.key(st[j][0]) for j in succ} != ys: return "outputs not covered in state %d" % i
        for j in succ: edges.append((ix[i], ix[j], {("A", n) for n, f in enumerate(sp.A) if sp.ev(f, p, st[j][0])} | {("G", n) for n, f in enumerate(sp.G) if sp.ev(f, p, st[j][0])}))
    for n in range(len(sp.A)):
        w = scc_bad(len(ids), edges, set(), ("A", n))
        if w is not None: return "a cycle through state %d starves assumption %d" % (ids[w], n)
    w = scc_bad(len(ids), edges, {("G", n) for n in range(len(sp.G))}, ("G", -1))
    return "" if w is None else "a run through state %d satisfies all guarantees" % ids[w]
if __name__ == "__main__":
    bad = 0
    cmd = sys.argv[1]
    if cmd == "strategy":          # ref.py strategy spec... -- options
        a = sys.argv[2:]; k = a.index("--") if "--" in a else len(a)
        for f in a[:k]:
            e = strategy(f, *a[k + 1:]); print(f, e or "ok"); bad |= bool(e)
    elif cmd == "counter":
        a = sys.argv[2:]; k = a.index("--") if "--" in a else len(a)
        for f in a[:k]:
            e = counter(f, *a[k + 1:]); print(f, e or "ok"); bad |= bool(e)
    elif cmd == "verdict":
        a = sys.argv[2:]; k = a.index("--") if "--" in a else len(a)
        for f in a[:k]:
            sp = Spec(open(f).read()); rc, out, err = slugs(*a[k + 1:], f); e = rc or verdict(err) != sp.realizable("--sysInitRoboticsSemantics" in a)
            print(f, "WRONG" if e else "ok"); bad |= bool(e)
    sys.exit(bad)
