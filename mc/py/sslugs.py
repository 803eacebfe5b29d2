#!/usr/bin/env python3
"""L01, L02: the structured-slugs compiler against integer semantics.
Every formula of the bounded families is compiled by the real compiler.py (as a program); the compiled
formula is evaluated at every valuation of the variables (each within its range, before and after) and
compared with the meaning of the structured formula."""
import itertools, subprocess, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from enginelib import *
COMP = os.path.join(REPO, "tools", "StructuredSlugsParser", "compiler.py")

# ------------------------------------------------------------------ variables and valuations
class Decl:
    def __init__(s, inputs, outputs): s.inp, s.out = inputs, outputs; s.vars = inputs + outputs
    def text(s, sec): return "".join("[%s]\n%s\n\n" % (n, "\n".join(v if r is None else "%s:%d...%d" % (v, r[0], r[1]) for v, r in vs)) for n, vs in (("INPUT", s.inp), ("OUTPUT", s.out))) + sec
def bits(lo, hi):
    n = 0
    while 2 ** n <= hi - lo: n += 1
    return n
def bitNames(v, r): return [v + "@%d" % i + (".%d.%d" % r if i == 0 else "") for i in range(bits(*r))]
class Space:
    """all valuations (only of the occurring symbols) as parallel integers"""
    def __init__(s, decl, syms):
        s.syms = syms; dom = []
        for v in syms:
            r = dict(decl.vars)[v.rstrip("'")]; dom.append((0, 1) if r is None else range(r[0], r[1] + 1))
        s.vals = list(itertools.product(*dom)); s.N = len(s.vals); s.mask = (1 << s.N) - 1; s.col = {}; s.tt = {}
        for i, v in enumerate(syms):
            c = [x[i] for x in s.vals]; s.col[v] = c; r = dict(decl.vars)[v.rstrip("'")]; pr = "'" if v.endswith("'") else ""
            if r is None: s.tt[v] = s.pack(c)
            else:
                for k, b in enumerate(bitNames(v.rstrip("'"), r)): s.tt[b + pr] = s.pack([(x - r[0]) >> k & 1 for x in c])
    def pack(s, col): return int("".join("1" if x else "0" for x in reversed(col)), 2) if s.N else 0
    # value of a slugs prefix formula
    def prefix(s, txt):
        tok = txt.split()
        def rec(i, mem):
            t = tok[i]
            if t == "!": v, j = rec(i + 1, mem); return s.mask & ~v, j
            if t in ("&", "|", "^"):
                a, j = rec(i + 1, mem); b, k = rec(j, mem); return (a & b if t == "&" else a | b if t == "|" else a ^ b), k
            if t == "$":
                n = int(tok[i + 1]); assert n > 0; m = []; j = i + 2
                for _ in range(n): x, j = rec(j, m); m.append(x)
                return m[-1], j
            if t == "?": return mem[int(tok[i + 1])], i + 2
            if t == "0": return 0, i + 1
            if t == "1": return s.mask, i + 1
            return s.tt[t], i + 1
        v, j = rec(0, None)
        if j != len(tok): raise ValueError("tokens left over")
        return v
# ------------------------------------------------------------------ structured formulas: ("op", ...) trees
def num(s, e, nx):
    if e[0] == "n": return [e[1]] * s.N
    if e[0] == "v": return s.col[e[1] + ("'" if nx else "")]
    if e[0] == "+": return [a + b for a, b in zip(num(s, e[1], nx), num(s, e[2], nx))]
    if e[0] == "(": return num(s, e[1], nx)
    if e[0] == "lsb": return [(b >> e[1] << e[1]) | a for a, b in zip(num(s, e[2], nx), num(s, e[3], nx))]   # e[1]: bits of the first operand
CMP = {"=": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}
def val(s, e, nx=False):
    o = e[0]
    if o == "b": return s.tt[e[1] + ("'" if nx else "")]
    if o == "c": return s.mask if e[1] else 0
    if o == "cmp": return s.pack([CMP[e[1]](a, b) for a, b in zip(num(s, e[2], nx), num(s, e[3], nx))])
    if o == "!": return s.mask & ~val(s, e[1], nx)
    if o == "X": return val(s, e[1], True)
    a, b = val(s, e[1], nx), val(s, e[2], nx)
    return {"&": a & b, "|": a | b, "^": a ^ b, "->": (s.mask & ~a) | b, "<->": s.mask & ~(a ^ b)}[o]
def syms(e, nx=False):
    if e[0] in ("b", "v"): return {e[1] + ("'" if nx else "")}
    if e[0] in ("n", "c"): return set()
    if e[0] == "cmp": return syms(e[2], nx) | syms(e[3], nx)
    if e[0] == "X": return syms(e[1], True)
    return set().union(*[syms(x, nx) for x in e[1:] if isinstance(x, tuple)])
PREC = {"&": 5, "|": 4, "^": 3, "->": 2, "<->": 1}
SPELL = {"&": ["&", "&&", "/\\"], "|": ["|", "||", "\\/"], "^": ["^"], "->": ["->", "-->"], "<->": ["<->", "<-->"], "!": ["!", "~"], "X": ["X", "next", "()"]}

def compileLines(decl, formulas, sec="SYS_TRANS", args=()):
    """compiles one file with all formulas; returns (list of compiled lines, error)"""
    p = os.path.join(scratch(), "in.structuredslugs")
    open(p, "w").write(decl.text("[%s]\n" % sec + "\n".join(formulas) + "\n"))
    try: r = subprocess.run([sys.executable, COMP] + list(args) + [p], capture_output=True, text=True, timeout=60)
    except subprocess.TimeoutExpired: return None, "the compiler did not finish within 60 s", ""
    if r.returncode: return None, r.stderr[-600:], r.stdout
    out = r.stdout.split("[%s]\n" % sec, 1)
    if len(out) < 2: return None, "section missing", r.stdout
    body = out[1].split("\n[", 1)[0].split("\n")
    return [l for l in body if l.strip() and not l.startswith("#")][:len(formulas)], None, r.stdout
def checkChunk(decl, items, c, sec="SYS_TRANS"):
    """items: (text, tree)"""
    lines, err, _ = compileLines(decl, [t for t, _ in items], sec); c.add("runs")
    if lines is None or len(lines) != len(items):
        if len(items) == 1:
            c.violation(items[0][0], "not compiled: %s\n%s" % (items[0][0], err)); return
        h = len(items) // 2; checkChunk(decl, items[:h], c, sec); checkChunk(decl, items[h:], c, sec); return
    for (t, e), l in zip(items, lines):
        c.add("traces"); c.add("nontrivial"); s = space(decl, tuple(sorted(syms(e)))); c.add("states", s.N); c.add("transitions", s.N)
        try: got = s.prefix(l)
        except Exception as x: c.violation(t, "compiled formula cannot be evaluated (%r)\n%s\n%s" % (x, t, l)); continue
        want = val(s, e)
        if got != want:
            k = (got ^ want).bit_length() - 1
            c.violation(t, "wrong meaning at %s: compiled %d, structured %d\nstructured: %s\ncompiled: %s\n%s" % (dict(zip(s.syms, s.vals[k])), got >> k & 1, want >> k & 1, t, l, decl.text("")))
_sp = {}
def space(decl, sy):
    k = (decl.text(""), sy)
    if k not in _sp: _sp[k] = Space(decl, sy)
    return _sp[k]
def chunks(l, n): return [l[i:i + n] for i in range(0, len(l), n)]

# ------------------------------------------------------------------ families
D1 = Decl([("a", None), ("x", (0, 3))], [("b", None), ("c", None), ("y", (2, 6))])
A = [("a", ("b", "a")), ("b", ("b", "b")), ("c'", ("X", ("b", "c"))), ("! a", ("!", ("b", "a"))), ("x > 1", ("cmp", ">", ("v", "x"), ("n", 1))), ("TRUE", ("c", 1)), ("X b", ("X", ("b", "b"))), ("! X ! c", ("!", ("X", ("!", ("b", "c")))))]
def flat(atoms, ops):
    """text without brackets and its tree by the documented precedence (None if two -> follow each other on one level)"""
    txt = atoms[0][0]
    for o, a in zip(ops, atoms[1:]): txt += " %s %s" % (o, a[0])
    xs = [a[1] for a in atoms]; os_ = list(ops)
    for lv in (5, 4, 3, 2, 1):
        i = 0; chain = 0
        while i < len(os_):
            if PREC[os_[i]] == lv:
                if os_[i] == "->" and chain: return None
                xs[i:i + 2] = [(os_[i], xs[i], xs[i + 1])]; del os_[i]; chain = 1
            else: i += 1; chain = 0
    return txt, xs[0]
def famFlat():
    r = []
    for n in (1, 2, 3) + ((4,) if T else ()):
        at = A if n <= 2 else A[:5] if n == 3 else A[:4]
        for atoms in itertools.product(at, repeat=n):
            for ops in itertools.product(PREC, repeat=n - 1):
                f = flat(atoms, ops)
                if f: r.append(f)
    # four atoms, all operators, fixed pairwise different atoms
    for ops in itertools.product(PREC, repeat=3):
        f = flat([A[0], A[1], A[2], A[4]], ops)
        if f: r.append(f)
    return r
def famBrackets():
    r = []; at = A[:4]
    def br(t): return "(%s)" % t
    for o1 in PREC:
        for o2 in PREC:
            for x, y, z in itertools.product(at, repeat=3):
                r.append(("(%s %s %s) %s %s" % (x[0], o1, y[0], o2, z[0]), (o2, (o1, x[1], y[1]), z[1])))
                r.append(("%s %s (%s %s %s)" % (x[0], o1, y[0], o2, z[0]), (o1, x[1], (o2, y[1], z[1]))))
            p, q, s_ = A[0], A[1], A[4]
            for u, tr in (("!", "!"), ("~", "!"), ("X", "X"), ("next", "X"), ("()", "X")):
                r.append(("%s (%s %s %s) %s %s" % (u, p[0], o1, q[0], o2, s_[0]), (o2, (tr, (o1, p[1], q[1])), s_[1])))
                r.append(("%s %s %s %s %s %s" % (u, p[0], o1, q[0], o2, s_[0]), None))
    out = []
    for t, e in r:
        if e is None:
            parts = t.split(); u = parts[0]; o1, o2 = parts[2], parts[4]; tr = "!" if u in "!~" else "X"
            f = flat([("%s a" % u, (tr, ("b", "a"))), A[1], A[4]], (o1, o2))
            if f: out.append(f)
        else: out.append((t, e))
    return out
def famSpell():
    r = []
    for o in PREC:
        for sp in SPELL[o]:
            for x in A:
                for y in A:
                    for fmt in ("%s %s %s", "%s%s%s", "(%s)%s(%s)"):
                        t = fmt % (x[0], sp, y[0])
                        if fmt == "%s%s%s" and (sp[0] in "!<>" and x[0][-1] in "<>"): continue
                        r.append((t, (o, x[1], y[1])))
    for u in ("!", "X"):
        for sp in SPELL[u]:
            for x in A:
                if u == "X" and ("X" in x[0] or "'" in x[0]): continue
                for fmt in ("%s %s", "%s(%s)"):
                    if fmt == "%s %s" and "> 1" in x[0] and u == "!": pass
                    r.append((fmt % (sp, x[0]), (u, x[1])))
    return r
D2 = Decl([("x", (0, 3)), ("u", (1, 2))], [("y", (2, 6)), ("z", (5, 5)), ("w", (0, 9))])
TERMS = [("x", ("v", "x")), ("x'", None), ("y", ("v", "y")), ("u", ("v", "u")), ("w", ("v", "w")), ("z", ("v", "z")), ("0", ("n", 0)), ("1", ("n", 1)), ("3", ("n", 3)), ("6", ("n", 6)), ("11", ("n", 11))]
class PV:   # a primed variable inside a sum: represented through a symbol of its own
    pass
def term(t):
    if t.isdigit(): return ("n", int(t))
    return ("v", t)
def sums():
    base = ["x", "x'", "y", "u", "w", "z", "0", "1", "3", "6", "11"]; r = [(t, term(t)) for t in base]
    two = [(a + " + " + b, ("+", term(a), term(b))) for a in base for b in base]
    three = [(a + " + " + b + " + " + d, ("+", term(a), ("+", term(b), term(d)))) for a in ("x", "y'", "3") for b in ("x", "u", "5") for d in ("x", "y", "1", "0")]
    br = [("(%s + %s) + %s" % (a, b, d), ("+", ("+", term(a), term(b)), term(d))) for a in ("x", "y") for b in ("u", "2") for d in ("x'", "y", "4")] + [("(%s)" % a, term(a)) for a in ("x", "y", "7")] + [("%s + (%s + %s)" % (a, b, d), ("+", term(a), ("+", term(b), term(d)))) for a in ("w", "1") for b in ("x", "y'") for d in ("u", "3")]
    return r, two, three, br
def famCmp():
    one, two, three, br = sums(); r = []
    for o in CMP:
        for l in one:
            for q in one: r.append(("%s %s %s" % (l[0], o, q[0]), ("cmp", o, l[1], q[1])))
        for l in two:
            for q in (one if T else one[:5] + one[9:]):
                if len(syms(l[1]) | syms(q[1])) > 3 and not T: continue
                r.append(("%s %s %s" % (l[0], o, q[0]), ("cmp", o, l[1], q[1]))); r.append(("%s %s %s" % (q[0], o, l[0]), ("cmp", o, q[1], l[1])))
        for l in three + br:
            for q in one[:4] + one[9:]: r.append(("%s %s %s" % (l[0], o, q[0]), ("cmp", o, l[1], q[1])))
        for l in two[::7]:
            for q in two[::5]:
                if len(syms(l[1]) | syms(q[1])) <= 3: r.append(("%s%s%s" % (l[0], o, q[0]), ("cmp", o, l[1], q[1])))
    return r
D3 = Decl([("x", (-2, 1)), ("u", (-1, -1))], [("y", (-5, -2)), ("w", (-3, 4)), ("z", (1, 3))])
def famNeg():
    base = ["x", "x'", "y", "u", "w", "z", "0", "1", "4"]; r = []
    one = [(t, term(t)) for t in base]; two = [(a + " + " + b, ("+", term(a), term(b))) for a in base for b in base]; br = [("(%s + %s) + %s" % (a, b, d), ("+", ("+", term(a), term(b)), term(d))) for a in ("x", "y") for b in ("u", "2") for d in ("x'", "w", "4")]
    for o in CMP:
        for l in one + two + br:
            for q in one: r.append(("%s %s %s" % (l[0], o, q[0]), ("cmp", o, l[1], q[1])))
        for l in two[::5]:
            for q in two[::4]: r.append(("%s%s%s" % (l[0], o, q[0]), ("cmp", o, l[1], q[1])))
    for a in ("x", "y", "w"): r.append(("X (%s < z)" % a, ("X", ("cmp", "<", term(a), term("z")))))
    return r
# ranges with a single value (no bits), also primed and below "next"
D4 = Decl([("p", (3, 3)), ("x", (0, 3))], [("q", (0, 0)), ("r", (-2, -2)), ("y", (2, 6))])
def famSingle():
    base = ["p", "p'", "q", "q'", "r", "r'", "x'", "y", "0", "3"]; r = []
    one = [(t, term(t)) for t in base]; two = [(a + " + " + b, ("+", term(a), term(b))) for a in base for b in base]
    for o in CMP:
        for l in one + two:
            for q in one: r.append(("%s %s %s" % (l[0], o, q[0]), ("cmp", o, l[1], q[1]))); r.append(("%s %s %s" % (q[0], o, l[0]), ("cmp", o, q[1], l[1])))
    for a in ("p", "q", "r"):
        for o in CMP: r.append(("X (%s %s x)" % (a, o), ("X", ("cmp", o, term(a), term("x"))))); r.append(("next(y + %s %s 4)" % (a, o), ("X", ("cmp", o, ("+", term("y"), term(a)), term("4")))))
    return r
# more than eight bits
D5 = Decl([("x", (0, 300)), ("k", (0, 1))], [("y", (250, 520)), ("v", (-200, 99)), ("o", (7, 7))])
def famWide():
    r = []; one = [(t, term(t)) for t in ("x", "x'", "y", "v", "k", "o", "0", "255", "256", "511", "770")]
    two = [(a + " + " + b, ("+", term(a), term(b))) for a, b in (("x", "0"), ("0", "x"), ("0", "y'"), ("y", "0"), ("x", "k"), ("k", "x"), ("y", "o"), ("o", "y"), ("x", "y"), ("y", "x"), ("x", "x"), ("v", "x"), ("k", "v"), ("x", "213"), ("256", "x"), ("y", "262"))]
    for o in CMP:
        for l in one + two:
            for q in one[:1] + one[3:]:
                if len(syms(l[1]) | syms(q[1])) > 2: continue
                r.append(("%s %s %s" % (l[0], o, q[0]), ("cmp", o, l[1], q[1]))); r.append(("%s %s %s" % (q[0], o, l[0]), ("cmp", o, q[1], l[1])))
    return r
# overwriting the least significant bits; the number of overwritten bits is that of the first operand
D6 = Decl([("x", (0, 3)), ("k", (0, 1))], [("w", (0, 9)), ("m", (0, 31)), ("q", (0, 0))])
def famOverwrite():
    wd = {"x": 2, "x'": 2, "k": 1, "w": 4, "w'": 4, "m": 5, "m'": 5, "q": 0, "1": 1, "2": 2, "5": 3, "9": 4, "21": 5, "0": 0}; r = []; ov = []
    for a in ("x", "x'", "k", "w", "q", "0", "1", "2", "5"):
        for b in ("x", "w", "w'", "m", "m'", "9", "21"):
            if wd[a] < wd[b]: ov.append(("%s LEASTSIGNIFICANTBITOVERWRITES %s" % (a, b), ("lsb", wd[a], term(a), term(b))))
    for i, l in enumerate(ov):
        for o in CMP:
            for q in ("w", "m'", "x", "7", "20"):
                if len(syms(l[1]) | {q}) > 3: continue
                r.append(("%s %s %s" % (l[0], o, q), ("cmp", o, l[1], term(q)))); r.append(("%s %s %s" % (q, o, l[0]), ("cmp", o, term(q), l[1])))
            for q in ("k", "3"):
                r.append(("%s + %s %s 12" % (l[0], q, o), ("cmp", o, ("+", l[1], term(q)), term("12")))); r.append(("%s + (%s) %s 12" % (q, l[0], o), ("cmp", o, ("+", term(q), l[1]), term("12"))))
    return r
def famCmpBool():
    r = []; cs = [("x = 1", ("cmp", "=", ("v", "x"), ("n", 1))), ("x' < y", ("cmp", "<", ("v", "x'"), ("v", "y"))), ("y + x >= 5", ("cmp", ">=", ("+", ("v", "y"), ("v", "x")), ("n", 5))), ("u != x", ("cmp", "!=", ("v", "u"), ("v", "x"))), ("3 <= y", ("cmp", "<=", ("n", 3), ("v", "y")))]
    for a in cs:
        for b in cs:
            for o in PREC:
                for n1 in ("", "!"):
                    for n2 in ("", "! "):
                        x = ("!", a[1]) if n1 else a[1]; y = ("!", b[1]) if n2 else b[1]
                        r.append((n1 + a[0] + " " + o + " " + n2 + b[0], (o, x, y)))
        if "'" not in a[0]:
            for u in SPELL["X"]: r.append(("%s (%s)" % (u, a[0]), ("X", a[1]))); r.append(("%s %s" % (u, a[0]), ("X", a[1]))); r.append(("%s ! (%s) & x = 2" % (u, a[0]), ("&", ("X", ("!", a[1])), ("cmp", "=", ("v", "x"), ("n", 2)))))
    return r
def fixPrime(e, nx=False):
    # ("v", "x'") is used in sums: the symbol itself carries the prime
    return e
def body(item, c): checkChunk(item[0], item[1], c, item[2])
# ranges: the limits in INIT and TRANS admit exactly the values of the range
def rangeBody(item, c):
    lo, hi, kind, args = item
    class D:
        def text(s, x): return "%s[%s]\nv:%d...%d\n\n%s%s" % ("" if kind == "INPUT" else "[INPUT]\ni\n\n", kind, lo, hi, "" if kind == "OUTPUT" else "[OUTPUT]\no\n\n", x)
    d = D()
    p = os.path.join(scratch(), "in.structuredslugs"); open(p, "w").write(d.text("")); c.add("runs"); key = "range %r" % (item,)
    r = subprocess.run([sys.executable, COMP] + list(args) + [p], capture_output=True, text=True, timeout=60)
    if r.returncode: c.violation(key, "not compiled: %s\n%s" % (r.stderr[-500:], d.text(""))); return
    sec = {}; cur = None
    for l in r.stdout.split("\n"):
        if l.startswith("["): cur = l.strip(); sec[cur] = []
        elif l.strip() and not l.startswith("#"): sec[cur].append(l.strip())
    if sec.get("[%s]" % kind) != bitNames("v", (lo, hi)): c.violation(key, "bits declared: %r, expected %r" % (sec.get("[%s]" % kind), bitNames("v", (lo, hi)))); return
    P = "SYS" if kind == "OUTPUT" else "ENV"; O = "SYS" if P == "ENV" else "ENV"
    if sec.get("[%s_INIT]" % O) or sec.get("[%s_TRANS]" % O): c.violation(key, "limits of the other player:\n" + r.stdout); return
    n = bits(lo, hi); c.add("traces"); c.add("nontrivial")
    # every bit pattern before and after
    for pre in range(2 ** n):
        for post in range(2 ** n):
            class One(Space):
                def __init__(s): s.mask = 1; s.N = 1; s.tt = {b: pre >> k & 1 for k, b in enumerate(bitNames("v", (lo, hi)))}; s.tt.update({b + "'": post >> k & 1 for k, b in enumerate(bitNames("v", (lo, hi)))})
            s = One(); ini = all(s.prefix(l) for l in sec.get("[%s_INIT]" % P, [])); tr = all(s.prefix(l) for l in sec.get("[%s_TRANS]" % P, [])); c.add("states"); c.add("transitions")
            if ini != (pre <= hi - lo): c.violation(key, "initial limits wrong for bit pattern %d\n%s" % (pre, r.stdout)); return
            if pre <= hi - lo and tr != (post <= hi - lo): c.violation(key, "transition limits wrong for bit patterns %d -> %d\n%s" % (pre, post, r.stdout)); return
# malformed input is rejected, never dropped; well-formed prefix lines and comments pass
REJECT = ["a &", "& a", "a & (b", "a & b)", "(a", ")", "a b", "x", "x +", "x + 1", "x = ", "= 1", "x = = 1", "a = b", "a + 1 = 2", "x & b", "undefinedname", "undefinedname > 2", "x > undefinedname", "x - 1 = 0", "x * 2 = 2", "x / 2 = 1", "a <- b", "a <> b", "X X a", "X a'", "X (x' = 1)", "G a", "F a", "[]a", "<> a", "a U b", "a W b", "a W", "a -> ", "-> a", "!", "X", "x < y < 3", "TRUE FALSE", "a @ b", "a % b", "a ; b", "a b c", "| a", "& a b c", "! ! ", "[a] & b", "[a", "[FOO]", "[SYS_TRANS", "1", "1 + 1", "x' + ", "() ", "next"]
def rejectBody(item, c):
    t, sec, pos = item; c.add("runs"); c.add("traces"); c.add("nontrivial"); c.add("states"); c.add("transitions")
    d = D1; lines = ["b", "c | b"]; lines.insert(pos, t); p = os.path.join(scratch(), "in.structuredslugs"); open(p, "w").write(d.text("[%s]\n" % sec + "\n".join(lines) + "\n"))
    try: r = subprocess.run([sys.executable, COMP, p], capture_output=True, text=True, timeout=30)
    except subprocess.TimeoutExpired: c.violation("reject " + t, "the compiler does not end on the line %r" % t); return
    if r.returncode == 0:
        if t == "1": return
        c.violation("reject %s at %d" % (t, pos), "accepted although the line %r has no meaning\n%s" % (t, r.stdout)); return
    if not r.stderr.strip(): c.violation("reject " + t, "no message for the line %r" % t)
def passBody(item, c):
    sec, lines = item; c.add("runs"); c.add("traces"); c.add("nontrivial"); c.add("states"); c.add("transitions")
    d = D1; p = os.path.join(scratch(), "in.structuredslugs"); open(p, "w").write("# first\n" + d.text("[%s]\n" % sec + "\n".join(lines) + "\n"))
    r = subprocess.run([sys.executable, COMP, p], capture_output=True, text=True, timeout=30)
    if r.returncode: c.violation("pass %s %r" % (sec, lines), "rejected\n" + r.stderr[-400:]); return
    got = [l for l in r.stdout.split("[%s]\n" % sec)[1].split("\n[")[0].split("\n") if l.strip() and not l.startswith("#")]
    want = [l for l in lines if l.strip() and not l.startswith("#")]
    if got[:len(want)] != want: c.violation("pass %s %r" % (sec, lines), "prefix lines changed\n" + r.stdout)
PREFIX = ["a", "| a b", "& ! a b", "^ a b", "$ 2 | a b ! ? 0", "! x@0.0.3", "| x@1 y@0.2.6", "0", "1"]
def main():
    dr = []
    n = 150
    for name, f in (("precedence", famFlat()), ("brackets", famBrackets()), ("spellings", famSpell())):
        dr.append((name, [(D1, ch, "SYS_TRANS") for ch in chunks(f, n)], body))
    dr.append(("comparisons", [(D2, ch, "SYS_TRANS") for ch in chunks(famCmp(), n)], body))
    dr.append(("negativeRanges", [(D3, ch, "SYS_TRANS") for ch in chunks(famNeg(), n)], body))
    dr.append(("singleValues", [(D4, ch, "SYS_TRANS") for ch in chunks(famSingle(), n)], body))
    dr.append(("wide", [(D5, ch, "ENV_TRANS") for ch in chunks(famWide(), 20)], body))
    dr.append(("overwrites", [(D6, ch, "SYS_TRANS") for ch in chunks(famOverwrite(), n)], body))
    dr.append(("comparisonsInFormulas", [(D2, ch, "SYS_LIVENESS") for ch in chunks(famCmpBool(), n)], body))
    R = 40 if T else 12
    dr.append(("ranges", [(lo, hi, k, a) for lo in ((-9, -4, -1, 0, 1, 3, 7) if not T else range(-12, 9)) for hi in range(lo, lo + R) for k in ("INPUT", "OUTPUT", "OBSERVABLE_INPUT", "UNOBSERVABLE_INPUT", "CONTROLLABLE_INPUT") for a in ((), ("--thorougly",))], rangeBody))
    dr.append(("malformed", [(t, s, q) for t in REJECT for s in ("SYS_TRANS", "SYS_LIVENESS") for q in (0, 2)], rejectBody))
    dr.append(("passthrough", [(s, [p, "# remark", q]) for s in ("SYS_TRANS", "SYS_LIVENESS", "ENV_LIVENESS", "SYS_INIT") for p in PREFIX for q in PREFIX], passBody))
    explore(dr)
if __name__ == "__main__": main()
