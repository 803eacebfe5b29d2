#!/usr/bin/env python3
"""L02: structured specification -> compiler -> slugs -> integer decoder, against the game over the integers.
L03: the strategy converters (integer decoder, Graphviz) against the strategy they are given."""
import itertools, re, sys, os, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from enginelib import *
from intgame import Spec
BIN = None
def compileSpec(text):
    p = os.path.join(scratch(), "s.structuredslugs"); open(p, "w").write(text)
    return script("tools/StructuredSlugsParser/compiler.py", [p])
def run(text, *opts):
    p = os.path.join(scratch(), "s.slugsin"); open(p, "w").write(text)
    return subprocess.run([BIN, "--slugs"] + list(opts) + [p], capture_output=True, text=True, timeout=120)
def verdict(r): return True if "RESULT: Specification is realizable." in r.stderr else False if "RESULT: Specification is unrealizable." in r.stderr else None
def parseStates(txt, ints):
    st = {}; cur = None
    for l in txt.split("\n"):
        m = re.match(r"State (\d+) with rank (\S+) -> <(.*)>$", l.strip())
        if m:
            cur = int(m.group(1)); v = {}
            if cur in st: raise ValueError("state %d twice" % cur)
            for c in m.group(3).split(", "):
                if not c: continue
                n, x = c.rsplit("=", 1) if "=" in c else c.rsplit(":", 1)
                if ("=" in c) != (n in ints) or n in v: raise ValueError("component %r" % c)
                v[n] = int(x)
            st[cur] = (v, int(m.group(2)) if m.group(2).isdigit() else m.group(2), [])
        elif "With successors :" in l: st[cur][2].extend(int(x) for x in l.split(":", 1)[1].split(",") if x.strip())
    return st
def body02(item, c):
    for inp, out, f in item:
        s = Spec(inp, out, f); t = s.text(); s.build(); want = s.realizable()
        c.add("states", s.gameNodes); c.add("transitions", s.gameEdges); c.add("traces"); c.add("nontrivial"); c.add("a" if want else "b")
        k = compileSpec(t); c.add("runs")
        if k.returncode: c.violation(t, "not compiled: %s\n%s" % (k.stderr[-500:], t)); continue
        r = run(k.stdout, "--explicitStrategy"); c.add("runs"); got = verdict(r)
        if r.returncode or got is None: c.violation(t, "exit code %d\n%s\n%s" % (r.returncode, r.stderr[-500:], t)); continue
        if got != want: c.violation(t, "verdict %s, but the integer specification is %s\n%s" % ("realizable" if got else "unrealizable", "realizable" if want else "unrealizable", t)); continue
        if not want: continue
        d = script("tools/explicitImplementationIntegerDecoder.py", inp=r.stdout); c.add("runs")
        if d.returncode: c.violation(t, "decoder failed: %s\n%s\n%s" % (d.stderr[-500:], t, r.stdout[:1500])); continue
        ints = {v for v, q in inp + out if q is not None}; fixed = {v: q[0] for v, q in inp + out if q is not None and q[0] == q[1]}
        try:
            st = parseStates(d.stdout, ints)
            for v in st.values():
                for n, x in fixed.items(): v[0].setdefault(n, x)          # one-valued variables need no bits
                if set(v[0]) != set(s.names): raise ValueError("variables %r" % sorted(v[0]))
            e = s.check(st)
        except (ValueError, KeyError, IndexError) as x: e = "decoded strategy cannot be read: %r" % x
        if e: c.violation(t, "%s\n%s\n%s" % (e, t, d.stdout[:2500]))
        elif len(st) > 2: c.sample("%d states decoded, from\n%s" % (len(st), t))
def specs():
    NB = None
    sigs = [([("x", (0, 2))], [("y", (0, 2))]), ([("x", (1, 3))], [("y", (-1, 2))]), ([("x", (-2, 0))], [("y", (2, 6))]), ([("a", NB), ("x", (0, 1))], [("y", (5, 7)), ("b", NB)])]
    if T: sigs += [([("x", (3, 8))], [("y", (0, 3))]), ([("x", (0, 0)), ("a", NB)], [("y", (0, 4))]), ([("x", (-5, -3))], [("y", (-4, -1)), ("b", NB)]), ([("x", (9, 12))], [("y", (7, 7)), ("z", (0, 2))])]
    for inp, out in sigs:
        lx, hx = dict(inp)["x"]; ly, hy = dict(out)["y"]; sb = any(v == "b" for v, _ in out); sa = any(v == "a" for v, _ in inp)
        envT = [[], ["x' != x"], ["x' <= x + 1", "y = %d -> x' = x" % hy]]
        sysT = [[], ["y' <= y + 1 & y <= y' + 1"], ["x' = %d -> y' = y" % lx, "y' != %d" % (ly + 1)], ["y' + x >= %d" % (ly + lx + 1) if ly + lx + 1 >= 0 else "y' + x + %d >= 0" % -(ly + lx + 1)], ["X (x = %d) -> (y < y' | y' = %d)" % (hx, ly)]]
        envI = [[], ["x = %d" % hx]] if hx >= 0 else [[], ["x + %d = 0" % -hx]]
        sysI = [[], ["y + 1 > x & y != %d" % (hy if hy >= 0 else 0)]]
        A = [[], ["x = %d" % lx if lx >= 0 else "x + %d = 0" % -lx], ["x' != x", "x > y | y = %d" % max(hy, 0)]]
        G = [["y = %d" % max(hy, 0)], ["y' = x' | x' + y' = %d" % max(0, lx + ly), "y != x"], ["y <= x + 1", "! (y' = y)"]]
        if sb: G = [g + ["b"] if i == 0 else g for i, g in enumerate(G)]; sysT = [s + (["b' -> y' = %d" % ly] if i % 2 else []) for i, s in enumerate(sysT)]
        if sa: A = [a + ["a"] if i else a for i, a in enumerate(A)]
        for e, s, ei, si, a, g in itertools.product(envT, sysT, envI, sysI, A, G):
            e = [x.replace("= -", "= -") for x in e]
            yield inp, out, {k: [neg(x) for x in v] for k, v in (("ENV_TRANS", e), ("SYS_TRANS", s), ("ENV_INIT", ei), ("SYS_INIT", si), ("ENV_LIVENESS", a), ("SYS_LIVENESS", g))}
def neg(t):
    """the language has no negative numerals: v = -n becomes v + n = 0"""
    return re.sub(r"(\w+'?) (!?=) -(\d+)", r"\1 + \3 \2 0", t)
# ------------------------------------------------------------------ L03
def bits(lo, hi):
    n = 0
    while 2 ** n <= hi - lo: n += 1
    return n
def synthetic(decls, order, kind):
    """a strategy with one state for every valuation (each player's variables within their range); bits in the given order"""
    names = []; dom = []
    for v, r in decls: names.append([v] if r is None else [v + "@%d" % i + (".%d.%d" % r if i == 0 else "") for i in range(bits(*r))]); dom.append([0, 1] if r is None else range(r[0], r[1] + 1))
    vals = list(itertools.product(*dom)); n = len(vals); txt = ""; want = []
    flatN = [b for l in names for b in l]; perm = list(range(len(flatN)))
    if order == 1: perm.reverse()
    if order == 2: perm = perm[1::2] + perm[0::2]
    for i, v in enumerate(vals):
        b = []
        for (nm, r), x in zip(decls, v): b += [x] if r is None else [(x - r[0]) >> k & 1 for k in range(bits(*r))]
        succ = [(i * 3 + k) % n for k in range(i % 4)]; rank = "%d" % (i % 3) if kind == 0 else "(%d,%d)" % (i % 2, i % 3)
        txt += "State %d with rank %s -> <%s>\n" % (i, rank, ", ".join("%s:%d" % (flatN[p], b[p]) for p in perm))
        txt += "\tWith no successors.\n" if kind == 1 and not succ else "\tWith successors : " + ", ".join(map(str, succ)) + "\n"
        want.append((rank, dict(zip([d[0] for d in decls], v)), succ, [b[p] for p in perm]))
    return txt, want, [flatN[p] for p in perm]
def checkDecoded(txt, out, want, decls):
    li = txt.split("\n"); lo = out.split("\n")
    if len(li) != len(lo): return "%d lines instead of %d" % (len(lo), len(li))
    i = 0
    for a, b in zip(li, lo):
        m = re.match(r"(State .* -> <)(.*)>$", a)
        if not m:
            if a != b: return "line changed: %r instead of %r" % (b, a)
            continue
        if not (b.startswith(m.group(1)) and b.endswith(">")): return "line changed: %r instead of %r" % (b, a)
        got = {}
        for comp in b[len(m.group(1)):-1].split(", "):
            if not comp: continue
            q = comp.split("=") if "=" in comp else comp.split(":")
            if len(q) != 2 or q[0] in got: return "component %r of %r" % (comp, b)
            got[q[0]] = int(q[1])
            if ("=" in comp) != (dict(decls).get(q[0], 0) is not None): return "component %r of %r" % (comp, b)
        exp = {v: x for v, x in want[i][1].items() if dict(decls)[v] is None or bits(*dict(decls)[v])}
        if got != exp: return "values %r instead of %r" % (got, exp)
        i += 1
    return ""
def parseDot(t):
    """nodes {name: label}, edges [(a, b)], legend; ValueError if not a digraph"""
    tk = re.findall(r'"(?:[^"\\]|\\.)*"|->|[{}\[\];=,]|[A-Za-z_0-9.]+', t)
    if re.sub(r'"(?:[^"\\]|\\.)*"|->|[{}\[\];=,]|[A-Za-z_0-9.]+|\s', "", t): raise ValueError("stray characters")
    if tk[:2] != ["digraph", "{"] or tk[-1] != "}": raise ValueError("frame")
    nodes = {}; edges = []; legend = None; i = 2
    while i < len(tk) - 1:
        if tk[i] == "node":                          # default attributes (they are followed by the legend node)
            j = tk.index("]", i); i = j + 1; legend = tk[i]; i += 1
            if tk[i] != ";": raise ValueError("legend")
            i += 1; continue
        a = tk[i]; i += 1
        if a[0] != '"': raise ValueError(a)
        if tk[i] == "->":
            edges.append((a[1:-1], tk[i + 1][1:-1])); i += 2
        elif tk[i] == "[":
            j = tk.index("]", i); at = tk[i + 1:j]; lab = [at[k + 2] for k in range(len(at)) if at[k] == "label" and at[k + 1] == "="]
            if a[1:-1] in nodes: raise ValueError("node twice")
            nodes[a[1:-1]] = lab[0][1:-1]; i = j + 1
        if tk[i] != ";": raise ValueError("semicolon")
        i += 1
    return nodes, edges, legend and legend[1:-1]
def checkDot(out, want, names):
    try: nodes, edges, legend = parseDot(out)
    except (ValueError, IndexError) as x: return "not a readable graph: %r" % x
    if legend != ",".join(names): return "legend %r" % legend
    if nodes != {str(i): "".join(map(str, w[3])) + "/" + w[0] for i, w in enumerate(want)}: return "nodes or labels differ"
    if sorted(edges) != sorted((str(i), str(j)) for i, w in enumerate(want) for j in w[2]): return "edges differ"
    return ""
def body03(item, c):
    decls, order, kind = item; txt, want, names = synthetic(decls, order, kind); key = repr(item)
    c.add("traces", len(want)); c.add("states", len(want)); c.add("transitions", sum(len(w[2]) for w in want)); c.add("nontrivial")
    d = script("tools/explicitImplementationIntegerDecoder.py", inp=txt); c.add("runs"); e = "failed: " + d.stderr[-400:] if d.returncode else checkDecoded(txt, d.stdout, want, decls)
    if e: c.violation("decoder " + key, "integer decoder: %s\n%s\n%s" % (e, txt[:1500], d.stdout[:1500]))
    g = script("tools/explicitStrategyToGraphviz.py", inp=txt); c.add("runs"); e = "failed: " + g.stderr[-400:] if g.returncode else checkDot(g.stdout, want, names)
    if e: c.violation("graphviz " + key, "Graphviz converter: %s\n%s\n%s" % (e, txt[:1500], g.stdout[:1500]))
def parseRaw(txt):
    st = []; pr = None
    for l in txt.split("\n"):
        m = re.match(r"State (\d+) with rank (\S+) -> <(.*)>$", l.strip())
        if m: kv = [x.rsplit(":", 1) for x in m.group(3).split(", ") if x]; pr = [k for k, _ in kv]; st.append((int(m.group(1)), m.group(2), None, [], [v for _, v in kv])); cur = st[-1]
        elif "With successors :" in l: cur[3].extend(int(x) for x in l.split(":", 1)[1].split(",") if x.strip())
    return st, pr
def body03real(item, c):
    """strategies printed by slugs itself"""
    text, opts = item; r = run(text, *opts); c.add("runs")
    if r.returncode: c.violation("slugs " + repr(item), "exit code %d\n%s" % (r.returncode, text)); return
    st, pr = parseRaw(r.stdout)
    if not st: return
    c.add("states", len(st)); c.add("traces", len(st)); c.add("nontrivial"); c.add("transitions", sum(len(s[3]) for s in st))
    g = script("tools/explicitStrategyToGraphviz.py", inp=r.stdout); c.add("runs")
    try:
        if g.returncode: e = "failed: " + g.stderr[-400:]
        else:
            nodes, edges, legend = parseDot(g.stdout); e = ""
            if legend != ",".join(pr): e = "legend %r" % legend
            elif nodes != {str(s[0]): "".join(s[4]) + "/" + s[1] for s in st}: e = "nodes or labels differ"
            elif sorted(set(edges)) != sorted({(str(s[0]), str(j)) for s in st for j in s[3]}): e = "edges differ"
    except (ValueError, IndexError) as x: e = "not a readable graph: %r" % x
    if e: c.violation("graphviz %r" % (item,), "Graphviz converter: %s\n%s\n%s\n%s" % (e, text, r.stdout[:1200], g.stdout[:1200]))
def real():
    P = ["& a b", "| ! a b'", "! a'", "^ a' b'", "! b'", "a", "^ a b"]
    for t in itertools.product(["", "! a'", "! b", "a", "0"], ["", "^ a' b'", "! b", "| a' b'"], ["", "a"], ["", "b", "^ a b", "! b'"]):
        txt = "[INPUT]\na\n\n[OUTPUT]\nb\n\n" + "".join("[%s]\n%s\n\n" % (s, f) for s, f in zip(("ENV_TRANS", "SYS_TRANS", "ENV_LIVENESS", "SYS_LIVENESS"), t) if f and not (s == "ENV_TRANS" and "b'" in f))
        for o in (("--explicitStrategy",), ("--explicitStrategy", "--sysInitRoboticsSemantics"), ("--explicitStrategy", "--simpleRecovery")): yield txt, o
def main():
    global BIN
    BIN = slugsBin(); dr = []
    if PID == "L02":
        l = list(specs()); dr.append(("endToEnd", [l[i:i + 4] for i in range(0, len(l), 4)], body02))
    else:
        R = [None, (0, 0), (0, 1), (0, 2), (0, 3), (1, 4), (-2, 2), (7, 8), (-9, -3), (3, 11)] + ([(0, 31), (-20, 20), (100, 140), (5, 5), (1, 2), (0, 6)] if T else [])
        one = [[("v", r), ("flag", None)] for r in R]; two = [[("x", r), ("xx", q), ("b", None)] for r in R for q in R[:5] + R[6:7]]
        dr.append(("converters", [(d, o, k) for d in one + two + ([[("p", r), ("p2", q), ("p_3", s)] for r in R[:6] for q in R[:6] for s in R[:6] if r or q or s] if T else []) for o in (0, 1, 2) for k in (0,)], body03))
        dr.append(("slugsOutput", list(real()), body03real))
    explore(dr)
if __name__ == "__main__": main()
