"""Structured specifications with integers: an own parser, the explicit game over integer valuations, automata."""
import itertools, re
TOK = re.compile(r"\s*(<->|->|!=|<=|>=|\d+|-\d+|[A-Za-z_]\w*'?|[()&|^!=<>+])")
PR = [("<->",), ("->",), ("^",), ("|",), ("&",)]
def parse(t):
    tk = TOK.findall(t); pos = [0]
    def pk(): return tk[pos[0]] if pos[0] < len(tk) else None
    def nx(): pos[0] += 1; return tk[pos[0] - 1]
    def lv(i):
        if i == len(PR): return un()
        a = lv(i + 1)
        while pk() in PR[i]: o = nx(); a = (o, a, lv(i + 1))
        return a
    def un():
        if pk() == "!": nx(); return ("!", un())
        if pk() == "X": nx(); return ("X", un())
        if pk() == "TRUE": nx(); return ("c", True)
        if pk() == "FALSE": nx(); return ("c", False)
        s = pos[0]                                   # a bracket may hold a formula or a number
        try:
            a = sm(); o = pk()
            if o in ("=", "!=", "<", "<=", ">", ">="): nx(); return ("cmp", o, a, sm())
            if a[0] == "v": return a
            raise ValueError
        except ValueError:
            pos[0] = s
            if pk() != "(": raise
            nx(); a = lv(0)
            if nx() != ")": raise ValueError
            return a
    def sm():
        a = at()
        while pk() == "+": nx(); a = ("+", a, at())
        return a
    def at():
        if pos[0] >= len(tk): raise ValueError
        t = nx()
        if t == "(":
            a = sm()
            if pk() != ")": raise ValueError
            nx(); return a
        if re.match(r"-?\d+$", t): return ("n", int(t))
        if re.match(r"[A-Za-z_]", t): return ("v", t)
        raise ValueError
    r = lv(0)
    if pos[0] != len(tk): raise ValueError("left over in %r: %r" % (t, tk[pos[0]:]))
    return r
def code(e, nx=False):
    o = e[0]
    if o == "n": return str(e[1])
    if o == "c": return str(e[1])
    if o == "v": return "(q" + "[%r])" % e[1][:-1] if e[1].endswith("'") else "(%s[%r])" % ("q" if nx else "p", e[1])
    if o == "+": return "(%s+%s)" % (code(e[1], nx), code(e[2], nx))
    if o == "cmp": return "(%s%s%s)" % (code(e[2], nx), {"=": "=="}.get(e[1], e[1]), code(e[3], nx))
    if o == "!": return "(not %s)" % code(e[1], nx)
    if o == "X": return code(e[1], True)
    a, b = code(e[1], nx), code(e[2], nx)
    return {"&": "(%s and %s)", "|": "(%s or %s)", "^": "(bool(%s) != bool(%s))", "->": "((not %s) or %s)", "<->": "(bool(%s) == bool(%s))"}[o] % (a, b)
_f = {}
def fun(t):
    if t not in _f: _f[t] = eval("lambda p,q: bool(%s)" % code(parse(t)))
    return _f[t]
class Spec:
    """inp, out: [(name, None or (lo, hi))]; f: {section: [formula, ...]}"""
    def __init__(s, inp, out, f):
        s.inp, s.out, s.f = inp, out, f; s.names = [v for v, _ in inp + out]
        dom = lambda vs: [dict(zip([v for v, _ in vs], c)) for c in itertools.product(*[(0, 1) if r is None else range(r[0], r[1] + 1) for _, r in vs])]
        s.ins, s.outs = dom(inp), dom(out); s.fn = {k: [fun(t) for t in v] for k, v in f.items()}
        s.A = s.fn.get("ENV_LIVENESS") or [lambda p, q: True]; s.G = s.fn.get("SYS_LIVENESS") or [lambda p, q: True]
    def text(s):
        d = lambda vs: "".join(v + "\n" if r is None else "%s:%d...%d\n" % (v, r[0], r[1]) for v, r in vs)
        return "[INPUT]\n%s\n[OUTPUT]\n%s" % (d(s.inp), d(s.out)) + "".join("\n[%s]\n%s\n" % (k, "\n".join(v)) for k, v in s.f.items() if v)
    def all(s, sec, p, q): return all(g(p, q) for g in s.fn.get(sec, ()))
    def key(s, p): return tuple(p[n] for n in s.names)
    def build(s):
        s.st = [dict(x, **y) for x in s.ins for y in s.outs]; s.ix = {s.key(p): i for i, p in enumerate(s.st)}; no = len(s.outs)
        z = dict.fromkeys((v for v, _ in s.out), 0)
        s.mv = [[(i, [i * no + j for j in range(no) if s.all("SYS_TRANS", p, s.st[i * no + j])]) for i, x in enumerate(s.ins) if s.all("ENV_TRANS", p, dict(z, **x))] for p in s.st]
        s.states = len(s.st); s.trans = sum(len(ys) for m in s.mv for _, ys in m)
    def winning(s):
        """counter product of the game, solved as a parity game by progress of attractors (Zielonka)"""
        n, m, NG, NA = len(s.st), 0, len(s.G), len(s.A)
        # nodes: (state, g, a, prio) flattened on the fly
        ids = {}; own = []; pri = []; suc = []
        def node(k, o, p):
            if k not in ids: ids[k] = len(own); own.append(o); pri.append(p); suc.append([]); todo.append(k)
            return ids[k]
        todo = []
        for i in range(n): node(("s", i, 0, 0, 0), 1, 0)
        while todo:
            k = todo.pop(); v = ids[k]
            if k[0] == "s":
                for x, ys in s.mv[k[1]]: suc[v].append(node(("x", k[1], x, k[2], k[3], tuple(ys)), 0, 0))
            else:
                _, i, x, g, a, ys = k
                for j in ys:
                    g2, a2, pr = g, a, 0
                    if s.A[a](s.st[i], s.st[j]): a2 = (a + 1) % NA; pr = 1 if a2 == 0 else 0
                    if s.G[g](s.st[i], s.st[j]): g2 = (g + 1) % NG; pr = 2 if g2 == 0 else pr
                    suc[v].append(node(("s", j, g2, a2, pr), 1, pr))
        pre = [[] for _ in own]
        for v, l in enumerate(suc):
            for w in l: pre[w].append(v)
        def attr(V, T, pl):
            A = set(T); cnt = {}; q = list(T)
            while q:
                w = q.pop()
                for v in pre[w]:
                    if v not in V or v in A: continue
                    if own[v] == pl: A.add(v); q.append(v)
                    else:
                        if v not in cnt: cnt[v] = sum(1 for u in suc[v] if u in V)
                        cnt[v] -= 1
                        if cnt[v] == 0: A.add(v); q.append(v)
            return A
        # dead ends lose for their owner
        V = set(range(len(own))); W0 = attr(V, [v for v in V if own[v] == 1 and not suc[v]], 0); V -= W0; W1 = attr(V, [v for v in V if own[v] == 0 and not any(u in V or u in W0 for u in suc[v])], 1)
        # (system nodes whose successors are all lost are found by the attractor)
        V -= W1
        def zie(V):
            if not V: return set()
            d = max(pri[v] for v in V); pl = d % 2
            A = attr(V, [v for v in V if pri[v] == d], pl); R = zie(V - A); opp = (V - A) - R if pl == 0 else R
            if not opp: return set(V) if pl == 0 else set()
            B = attr(V, opp, 1 - pl); R2 = zie(V - B)
            return R2 if pl == 0 else R2 | B
        W = W0 | zie(V); s.gameNodes = len(own); s.gameEdges = sum(map(len, suc))
        return {i for i in range(n) if ids[("s", i, 0, 0, 0)] in W}
    def initials(s):
        z = dict.fromkeys((v for v, _ in s.out), 0)
        return [(x, [dict(x, **y) for y in s.outs if s.all("SYS_INIT", dict(x, **y), dict(x, **y))]) for x in s.ins if s.all("ENV_INIT", dict(z, **x), dict(z, **x))]
    def realizable(s):
        W = s.winning(); return all(any(s.ix[s.key(p)] in W for p in ps) for _, ps in s.initials())
    def check(s, st):
        """st: {id: (valuation, rank, successors)}; '' if this is a controller for the specification"""
        edges = []; start = {s.key(st[i][0]) for i in st if st[i][1] == 0}
        for i in st:
            if s.key(st[i][0]) not in s.ix: return "state %d has a value outside its range: %s" % (i, st[i][0])
        for x, ps in s.initials():
            if not any(s.key(p) in start for p in ps): return "initial input %s is not answered" % x
        for i in st:
            p = st[i][0]; k = s.ix[s.key(p)]; seen = set()
            for j in st[i][2]:
                if j not in st: return "dangling successor %d" % j
                q = st[j][0]; xi = s.ix[s.key(q)] // len(s.outs)
                if xi in seen: return "two successors for one input in state %d" % i
                seen.add(xi); m = dict(s.mv[k])
                if xi not in m: return "successor for an excluded input in state %d" % i
                if s.ix[s.key(q)] not in m[xi]: return "unsafe transition %d -> %d" % (i, j)
                edges.append((i, j, {("A", n) for n, f in enumerate(s.A) if f(p, q)} | {("G", n) for n, f in enumerate(s.G) if f(p, q)}))
            if seen != {x for x, _ in s.mv[k]}: return "state %d lacks a successor for an allowed input" % i
        for n in range(len(s.G)):
            w = fairCycle(list(st), edges, {("A", m) for m in range(len(s.A))}, ("G", n))
            if w is not None: return "fair cycle through state %d starves guarantee %d" % (w, n)
        return ""
def fairCycle(nodes, edges, need, avoid):
    E = [(u, v, l) for u, v, l in edges if avoid not in l]; adj = {u: [] for u in nodes}
    for u, v, _ in E: adj[u].append(v)
    comp = {}; idx = {}; low = {}; stack = []; on = set(); c = [0]
    for root in nodes:                               # Tarjan, iterative
        if root in idx: continue
        work = [(root, iter(adj[root]))]; idx[root] = low[root] = c[0]; c[0] += 1; stack.append(root); on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = c[0]; c[0] += 1; stack.append(w); on.add(w); work.append((w, iter(adj[w]))); break
                if w in on: low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    while True:
                        w = stack.pop(); on.discard(w); comp[w] = v
                        if w == v: break
    have = {}
    for u, v, l in E:
        if comp[u] == comp[v]: have.setdefault(comp[u], set()).update(l)
    for k, h in have.items():
        if need <= h or not need: return k
    return None
