// B01 the Boolean function layer (BF wrappers over CUDD) agrees with truth tables, under every
//     variable order and with reordering between any two operations
// B02 functions written to a file are read back as the same functions
#include <fcntl.h>
#include <unistd.h>
#include "harness.hpp"
#include "gr1context.hpp"
#include <cudd.h>
using namespace mc;
namespace {
unsigned levelPerm(int n, int k, int *p) {      // k-th permutation of 0..n-1
    vector<int> v; for (int i = 0; i < n; i++) v.push_back(i); unsigned f = 1; for (int i = 2; i < n; i++) f *= i;
    for (int i = 0; i < n; i++) { int q = k / f; k %= f; p[i] = v[q]; v.erase(v.begin() + q); if (n - 1 - i > 0) f /= (n - 1 - i); } return 0;
}
i64 fact(int n) { i64 r = 1; for (int i = 2; i <= n; i++) r *= i; return r; }
struct Mgr { BFManager m; vector<BF> v; int n; Mgr(int nv) : n(nv) { for (int i = 0; i < nv; i++) v.push_back(m.newVariable()); }
    ~Mgr() {}
    void order(int k) { int p[8]; levelPerm(n, k, p); Cudd_ShuffleHeap(m.getMgr(), p); }
    // value of a function under one assignment: a plain walk over the graph
    bool eval(const BF &f, unsigned a) const { DdNode *x = f.getCuddNode(); bool neg = false; for (;;) { if (Cudd_IsComplement(x)) { neg = !neg; x = Cudd_Regular(x); } if (Cudd_IsConstant(x)) return !neg; x = (a >> Cudd_NodeReadIndex(x) & 1) ? Cudd_T(x) : Cudd_E(x); } }
    u64 tt(const BF &f) const { u64 r = 0; for (unsigned a = 0; a < (1u << n); a++) if (eval(f, a)) r |= 1ull << a; return r; }
    // built by Shannon expansion with & | ! only
    BF make(u64 t) { return rec(t, n); }
    BF rec(u64 t, int k) { if (k == 0) return (t & 1) ? m.constantTrue() : m.constantFalse(); u64 half = 1ull << (1u << (k - 1)), lo = t & (half - 1), hi = (t >> (1u << (k - 1))) & (half - 1); if (k == 6) { lo = t & 0xffffffffull; hi = t >> 32; } return (v[k - 1] & rec(hi, k - 1)) | (!v[k - 1] & rec(lo, k - 1)); }
};
u64 mask(int n) { return n == 6 ? ~0ull : (1ull << (1u << n)) - 1; }
u64 tEx(u64 t, int n, unsigned vs) { for (int i = 0; i < n; i++) if (vs >> i & 1) { u64 r = 0; for (unsigned a = 0; a < (1u << n); a++) if ((t >> a & 1) || (t >> (a ^ (1u << i)) & 1)) r |= 1ull << a; t = r; } return t; }
u64 tAll(u64 t, int n, unsigned vs) { return mask(n) & ~tEx(mask(n) & ~t, n, vs); }
u64 tSwap(u64 t, int n, const vector<int> &x, const vector<int> &y) { u64 r = 0; for (unsigned a = 0; a < (1u << n); a++) { unsigned b = a; for (size_t i = 0; i < x.size(); i++) { unsigned p = a >> x[i] & 1, q = a >> y[i] & 1; b = (b & ~(1u << x[i]) & ~(1u << y[i])) | q << x[i] | p << y[i]; } if (t >> b & 1) r |= 1ull << a; } return r; }
#define EXP(name, got, want) do { u64 g_ = (got), w_ = (want); if (g_ != w_) { std::ostringstream o_; o_ << name << ": 0x" << std::hex << g_ << ", expected 0x" << w_ << "\n" << where(); c.violation(hashKey(string(name) + where()), o_.str()); return; } ops++; } while (0)
Driver pairs(int n, i64 orders, bool reord) {
    Driver d; d.id = "pairs" + S(n) + (reord ? "-reordering" : ""); i64 F = (i64)1 << (1 << n), M = mask(n); d.chunk = 2; d.recycle = 200; d.size = [=] { return F * orders; };
    d.describe = [=](i64 i) { return "first function 0x" + hex(i % F) + " over " + S(n) + " variables, variable order number " + S(i / F); };
    d.body = [=](i64 i, Ctx &c) {
        if (reord) { g_reorderFirst = 12; g_reorderStep = 1 + i / F; g_reorderings = 0; }
        u64 f = i % F, ops = 0, g = 0; Mgr m(n); if (reord) { m.m.setReorderingMaxBlowup(1.2); } else m.order(i / F); BF bf = m.make(f); auto where = [&] { return "f=0x" + hex(f) + " g=0x" + hex(g) + " " + d.describe(i); };
        for (g = 0; (i64)g < F; g++) {
            BF bg = m.make(g);
            EXP("and", m.tt(bf & bg), f & g); EXP("or", m.tt(bf | bg), f | g); EXP("xor", m.tt(bf ^ bg), f ^ g); EXP("minus", m.tt(bf - bg), f & ~g); EXP("not", m.tt(!bg), M & ~g); EXP("implies", m.tt(bf.Implies(bg)), M & (~f | g));
            BF t = bf; t &= bg; EXP("and assignment", m.tt(t), f & g); t = bf; t |= bg; EXP("or assignment", m.tt(t), f | g); EXP("operand of an assignment operator on a copy", m.tt(bf), f);
            EXP("<=", bf <= bg, (f & ~g) == 0); EXP(">=", bf >= bg, (g & ~f) == 0); EXP("<", bf < bg, (f & ~g) == 0 && f != g); EXP(">", bf > bg, (g & ~f) == 0 && f != g); EXP("==", bf == bg, f == g); EXP("!=", bf != bg, f != g);
            EXP("isTrue", bg.isTrue(), g == (u64)M); EXP("isFalse", bg.isFalse(), g == 0); EXP("isConstant", bg.isConstant(), g == 0 || g == (u64)M); EXP("equal functions share a node", (bf & bg).getHashCode() == m.make(f & g).getHashCode(), 1);
            EXP("multiAnd", m.tt(m.m.multiAnd({bf, bg, m.v[0]})), f & g & m.tt(m.v[0])); EXP("multiOr", m.tt(m.m.multiOr({bf, bg, m.v[n - 1]})), f | g | m.tt(m.v[n - 1]));
            if (g) { EXP("optimizeRestrict on the care set", m.tt(bf.optimizeRestrict(bg)) & g, f & g); EXP("minimizeUsingCareSet on the care set", m.tt(bf.minimizeUsingCareSet(bg)) & g, f & g); }
            for (unsigned q = 0; q < (1u << n); q++) { vector<BF> vs; for (int k = n - 1; k >= 0; k--) if (q >> k & 1) vs.push_back(m.v[k]); BFVarCube cb = m.m.computeCube(vs); EXP("AndAbstract", m.tt(bf.AndAbstract(bg, cb)), tEx(f & g, n, q)); }
        }
        c.add(C_RUNS, ops); c.add(C_TRACES, ops); c.add(C_STATES, F << n); c.add(C_TRANS, ops); c.add(C_NONTRIV); if (reord) { c.add(C_REORD, g_reorderings); g_reorderFirst = g_reorderStep = 0; }
    };
    return d;
}
Driver unary(int n, i64 orders, int blk) {
    Driver d; d.id = "single" + S(n); i64 F = (i64)1 << (1 << n), M = mask(n); d.chunk = 1; d.recycle = 400; d.size = [=] { return F / blk * orders; };
    d.describe = [=](i64 i) { return "functions number " + S(i % (F / blk) * blk) + " on, " + S(n) + " variables, variable order number " + S(i / (F / blk)); };
    d.body = [=](i64 i, Ctx &c) {
        u64 ops = 0, f = 0; Mgr m(n); m.order(i / (F / blk)); auto where = [&] { return "f=0x" + hex(f) + " " + d.describe(i); };
        struct Cu { unsigned q; BFVarCube cb; vector<BF> vs; }; vector<Cu> cubes; for (unsigned q = 0; q < (1u << n); q++) { Cu u; u.q = q; for (int k = 0; k < n; k++) if (q >> k & 1) u.vs.push_back(m.v[k]); u.cb = m.m.computeCube(u.vs); cubes.push_back(u); }
        struct Sw { vector<int> x, y; BFVarVector bx, by; }; vector<Sw> sw; for (int p = 0; p < n; p++) for (int q = 0; q < n; q++) if (p != q) { Sw s; s.x = {p}; s.y = {q}; sw.push_back(s); if (n >= 4) for (int r = 0; r < n; r++) for (int t = 0; t < n; t++) if (r != t && r != p && r != q && t != p && t != q) { Sw w; w.x = {p, r}; w.y = {q, t}; sw.push_back(w); } }
        for (auto &s : sw) { vector<BF> a, b; for (int k : s.x) a.push_back(m.v[k]); for (int k : s.y) b.push_back(m.v[k]); s.bx = m.m.computeVarVector(a); s.by = m.m.computeVarVector(b); }
        for (int j = 0; j < blk; j++) {
            f = i % (F / blk) * blk + j; BF bf = m.make(f); EXP("construction", m.tt(bf), f);
            for (auto &u : cubes) {
                EXP("ExistAbstract", m.tt(bf.ExistAbstract(u.cb)), tEx(f, n, u.q)); EXP("UnivAbstract", m.tt(bf.UnivAbstract(u.cb)), tAll(f, n, u.q)); EXP("cube size", (u64)u.cb.size(), (u64)__builtin_popcount(u.q));
                if (__builtin_popcount(u.q) == 1) { EXP("ExistAbstractSingleVar", m.tt(bf.ExistAbstractSingleVar(u.vs[0])), tEx(f, n, u.q)); EXP("UnivAbstractSingleVar", m.tt(bf.UnivAbstractSingleVar(u.vs[0])), tAll(f, n, u.q)); }
                // projections have exactly the free variables of the complement
                unsigned keep = ~u.q & ((1u << n) - 1); u64 cnt = 0; for (unsigned a = 0; a < (1u << n); a++) if ((a & u.q) == 0 && (tEx(f, n, u.q) >> a & 1)) cnt++;
                EXP("getNofSatisfyingAssignments", (u64)bf.ExistAbstract(u.cb).getNofSatisfyingAssignments(cubes[keep].cb), cnt);
            }
            for (auto &s : sw) EXP("SwapVariables", m.tt(bf.SwapVariables(s.bx, s.by)), tSwap(f, n, s.x, s.y));
            for (unsigned q = 0; q < (1u << n); q++) {       // determinize: non-empty stays non-empty, exactly one choice for the variables, nothing invented
                BF dt = GR1Context::determinize(bf, cubes[q].vs); u64 t = m.tt(dt); EXP("determinize invents assignments", t & ~f, 0); EXP("determinize loses everything", t == 0, f == 0);
                u64 pr = tEx(t, n, ~q & ((1u << n) - 1)), one = 0; for (unsigned a = 0; a < (1u << n); a++) if ((a & ~q) == 0 && (pr >> a & 1)) one++; EXP("determinize leaves a choice", one > 1, 0);
                // what is kept is all of f under the chosen values
                u64 sel = 0; for (unsigned a = 0; a < (1u << n); a++) if (pr >> a & 1) sel |= 1ull << a; EXP("determinize drops other variables", t, f & sel);
            }
            if (j % 16 == 0) for (unsigned q = 0; q < (1u << n); q += 5) for (unsigned ch = 0; ch < (1u << n); ch++) { if (ch & ~q) continue; Choice::active = true; Choice::path.clear(); Choice::tail = 0; for (int k = 0; k < n; k++) if (q >> k & 1) Choice::path.push_back(ch >> k & 1); Choice::pos = 0; Choice::taken.clear(); u64 t = m.tt(GR1Context::determinizeRandomized(bf, cubes[q].vs)); Choice::active = false; u64 pr = tEx(t, n, ~q & ((1u << n) - 1)); EXP("determinizeRandomized keeps exactly one choice", t, f & pr); EXP("determinizeRandomized loses everything", t == 0, f == 0); u64 one = 0; for (unsigned a = 0; a < (1u << n); a++) if ((a & ~q) == 0 && (pr >> a & 1)) one++; EXP("determinizeRandomized leaves a choice", one > 1, 0); }
            BF copy = bf, moved = std::move(copy), other; other = moved; other = std::move(moved); EXP("copies and moves", m.tt(other), f); EXP("moved-from is invalid", copy.isValid(), 0);
        }
        c.add(C_RUNS, ops); c.add(C_TRACES, ops); c.add(C_STATES, blk << n); c.add(C_TRANS, ops); c.add(C_NONTRIV); (void)M;
    };
    return d;
}
Driver minterms(int n, i64 orders, int blk) {
    Driver d; d.id = "cubes" + S(n); i64 F = (i64)1 << (1 << n); d.chunk = 1; d.recycle = 400; d.size = [=] { return F / blk * orders; };
    d.describe = [=](i64 i) { return "functions number " + S(i % (F / blk) * blk) + " on, " + S(n) + " variables, variable order number " + S(i / (F / blk)); };
    d.body = [=](i64 i, Ctx &c) {
        u64 ops = 0, f = 0, care = 0; Mgr m(2 * n); m.order((i / (F / blk)) * 977 % fact(2 * n)); auto where = [&] { return "f=0x" + hex(f) + " care=0x" + hex(care) + " " + d.describe(i); };
        vector<BF> pv, sv; for (int k = 0; k < n; k++) { pv.push_back(m.v[2 * k]); sv.push_back(m.v[2 * k + 1]); }
        std::function<BF(u64, int)> mk = [&](u64 t, int k) -> BF { if (!k) return (t & 1) ? m.m.constantTrue() : m.m.constantFalse(); u64 lo = t & ((1ull << (1 << (k - 1))) - 1), hi = t >> (1 << (k - 1)); return (pv[k - 1] & mk(hi, k - 1)) | (!pv[k - 1] & mk(lo, k - 1)); };
        vector<u64> cares; if (n <= 2) for (u64 q = 0; q < (u64)F; q++) cares.push_back(q); else cares = {mask(n), 0x7fff & mask(n), 0x3c & mask(n), 0x1, 0x69 & mask(n)};
        for (int j = 0; j < blk; j++) { f = i % (F / blk) * blk + j; for (u64 cr : cares) {
            care = cr; BF bf = mk(f, n), bc = mk(care, n); BFMintermEnumerator e(bf, bc, pv, sv); u64 covered = 0; int got = 0; EXP("something is enumerated exactly if there is something", e.hasNextMinterm(), (f & care) != 0);
            while (e.hasNextMinterm()) { vector<int> r; e.getNextMinterm(r); EXP("length of a cube", r.size(), (u64)n); u64 cube = 0; for (unsigned a = 0; a < (1u << n); a++) { bool in = true; for (int k = 0; k < n; k++) if (r[k] && (r[k] > 0) != (int)(a >> k & 1)) in = false; if (in) cube |= 1ull << a; }
                EXP("cube is part of the function", cube & ~f, 0); EXP("cube touches the care set", (cube & care) != 0, 1); covered |= cube; EXP("enumeration ends", ++got > (1 << (2 * n)), 0); }
            (void)covered;
        } }
        c.add(C_RUNS, ops); c.add(C_TRACES, ops); c.add(C_STATES, (i64)blk << n); c.add(C_TRANS, ops); c.add(C_NONTRIV);
    };
    return d;
}

// all sequences of object operations (copies, moves, assignments, compound assignments, cubes, vectors), with
// garbage collection and reordering as operations of their own: values stay those of the model, no reference is lost or left over
struct Op { int k, a, b; };
const vector<Op> &opTable() {
    static vector<Op> t; if (!t.empty()) return t;
    for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) { t.push_back({0, a, b}); if (a != b) t.push_back({1, a, b}); t.push_back({2, a, b}); t.push_back({3, a, b}); t.push_back({4, a, b}); }
    for (int a = 0; a < 3; a++) { t.push_back({5, a, 0}); t.push_back({6, a, a}); t.push_back({7, a, 0}); t.push_back({13, a, 0}); t.push_back({14, a, (a + 1) % 3}); }
    for (int a = 0; a < 2; a++) { t.push_back({8, a, 1 - a}); t.push_back({9, a, 1 - a}); }
    t.push_back({10, 0, 0}); t.push_back({11, 0, 0}); t.push_back({12, 0, 0}); return t;
}
string opName(const Op &o) { const char *n[] = {"copy-assign", "move-assign", "a=a&b copy", "&=", "|=", "a=!a", "self-assign", "a=exists v0.a", "cube copy", "vector copy", "garbage collection", "reordering", "temporary cube", "a=swap(a)", "a=copy-constructed b"}; return string(n[o.k]) + "(" + S(o.a) + "," + S(o.b) + ")"; }
Driver sequences(int depth) {
    Driver d; d.id = "sequences" + S(depth); i64 K = opTable().size(), N = 1; for (int i = 0; i < depth; i++) N *= K; d.size = [=] { return N / K; }; d.chunk = 8; d.recycle = 20000;
    auto show = [=](i64 i) { string r; for (int k = 0; k < depth; k++) { r += opName(opTable()[i % K]) + "; "; i /= K; } return r; };
    d.describe = [=](i64 i) { return "all sequences that begin with " + show(i); };
    d.body = [=](i64 base, Ctx &c) {
        u64 ops = 0; string cur; auto where = [&] { return cur; };
        for (i64 last = 0; last < K; last++) {
            i64 i = base + last * (N / K); cur = show(i); DdManager *raw; Mgr *m = new Mgr(3); raw = m->m.getMgr();
            { BF *s[3]; int val[3]; bool ok[3]; s[0] = new BF(m->v[0] & m->v[1]); s[1] = new BF(m->v[1] ^ m->v[2]); s[2] = new BF(!m->v[2]); val[0] = m->tt(*s[0]); val[1] = m->tt(*s[1]); val[2] = m->tt(*s[2]); for (bool &q : ok) q = true;
              BFVarCube cb[2] = {m->m.computeCube({m->v[0], m->v[2]}), m->m.computeCube({m->v[1]})}; unsigned cm[2] = {5, 2}; BFVarVector vx[2] = {m->m.computeVarVector({m->v[0]}), m->m.computeVarVector({m->v[1], m->v[0]})}, vy[2] = {m->m.computeVarVector({m->v[2]}), m->m.computeVarVector({m->v[2], m->v[1]})}; int sw[2] = {0, 1};   // second: overlapping, used for copying only
              i64 q = i;
              for (int k = 0; k < depth; k++) {
                const Op &o = opTable()[q % K]; q /= K; int a = o.a, b = o.b;
                switch (o.k) {
                case 0: *s[a] = *s[b]; val[a] = val[b]; ok[a] = ok[b]; break;
                case 1: *s[a] = std::move(*s[b]); val[a] = val[b]; { bool was = ok[b]; ok[b] = false; ok[a] = was; } break;
                case 2: if (ok[a] && ok[b]) { BF t = *s[a]; *s[a] = t & *s[b]; val[a] &= val[b]; } break;
                case 3: if (ok[a] && ok[b]) { *s[a] &= *s[b]; val[a] &= val[b]; } break;
                case 4: if (ok[a] && ok[b]) { *s[a] |= *s[b]; val[a] |= val[b]; } break;
                case 5: if (ok[a]) { *s[a] = !*s[a]; val[a] = 255 & ~val[a]; } break;
                case 6: *s[a] = *s[b]; break;
                case 7: if (ok[a]) { *s[a] = s[a]->ExistAbstract(BFVarCube(m->v[0])); val[a] = tEx(val[a], 3, 1); } break;
                case 8: cb[a] = cb[b]; cm[a] = cm[b]; { BFVarCube t(cb[a]); cb[b] = t; cm[b] = cm[a]; } break;
                case 9: { BFVarVector t(vx[b]); vx[a] = t; t = vy[b]; vy[a] = t; sw[a] = sw[b]; } break;
                case 10: Cudd_ReduceHeap(raw, CUDD_REORDER_NONE, 0); cuddGarbageCollect(raw, 1); break;
                case 11: { int p[3]; levelPerm(3, (k * 2 + 3) % 6, p); Cudd_ShuffleHeap(raw, p); } break;
                case 12: { BFVarCube t(*s[0]); (void)t; } break;
                case 13: if (ok[a] && sw[0] == 0) { *s[a] = s[a]->SwapVariables(vx[0], vy[0]); val[a] = tSwap(val[a], 3, {0}, {2}); } break;
                case 14: { BF *t = new BF(*s[b]); delete s[a]; s[a] = t; val[a] = val[b]; ok[a] = ok[b]; } break;
                }
              }
              for (int k = 0; k < 3; k++) { EXP("object validity", s[k]->isValid(), ok[k]); if (ok[k]) { EXP("value after the sequence", m->tt(*s[k]), (u64)val[k]); EXP("equality with a rebuilt function", *s[k] == m->make(val[k]), 1); } }
              for (int k = 0; k < 2; k++) EXP("cube after the sequence", m->tt((m->v[0] & m->v[1] & m->v[2]).ExistAbstract(cb[k])), tEx(0x80, 3, cm[k]));
              for (int k = 0; k < 2; k++) EXP("vector sizes", (u64)vx[k].size() * 8 + vy[k].size(), (u64)(sw[k] + 1) * 9);
              EXP("reference counts (Cudd_DebugCheck)", Cudd_DebugCheck(raw), 0);
              for (auto &x : s) delete x; }
            m->v.clear(); EXP("references left after everything is destroyed", Cudd_CheckZeroRef(raw), 0); delete m;
        }
        c.add(C_RUNS, ops); c.add(C_TRACES, K); c.add(C_STATES, K * (depth + 1)); c.add(C_TRANS, K * depth); c.add(C_NONTRIV);
    };
    return d;
}
vector<Driver> b01(const string &tier) {
    bool T = tier == "thorough"; vector<Driver> v;
    v.push_back(pairs(2, 2, false)); v.push_back(pairs(3, 6, false)); v.push_back(pairs(3, T ? 12 : 3, true)); v.push_back(unary(3, 6, 16)); v.push_back(unary(4, T ? 24 : 6, 64)); v.push_back(sequences(2)); v.push_back(sequences(T ? 4 : 3)); v.push_back(minterms(2, 24, 1)); v.push_back(minterms(3, T ? 720 : 40, 4)); if (T) v.push_back(minterms(4, 20, 64));
    return v;
}
Reg x1("B01", b01);
}

namespace {
// written under one variable order, read into another manager with other variables, order and numbering
Driver roundTrip(int n, i64 orders, int blk) {
    Driver d; d.id = "roundtrip" + S(n); i64 F = (i64)1 << (1 << n); d.chunk = 1; d.recycle = 200; d.size = [=] { return F / blk * orders; };
    d.describe = [=](i64 i) { return "functions number " + S(i % (F / blk) * blk) + " on, " + S(n) + " variables, variable order number " + S(i / (F / blk)); };
    d.body = [=](i64 i, Ctx &c) {
        u64 ops = 0, f = 0; i64 k = i / (F / blk); Mgr w(n), r(n + 2); w.order(k % fact(n)); r.order(k * 7 % fact(n + 2)); auto where = [&] { return "f=0x" + hex(f) + " " + d.describe(i); };
        int p[8]; levelPerm(n + 2, k * 31 % fact(n + 2), p); vector<BF> to; for (int j = 0; j < n; j++) to.push_back(r.v[p[j]]); vector<string> names; for (int j = 0; j < n; j++) names.push_back("v" + S(j));
        string path = scratch() + "/bdd.txt";
        for (int j = 0; j < blk; j++) {
            f = i % (F / blk) * blk + j; BF b = w.make(f); string prefix = k % 2 ? "# header\n# second line\n" : ""; w.m.writeBDDToFile(path.c_str(), prefix, b, w.v, names);
            string txt; getFile(path, txt); EXP("prefix first", txt.compare(0, prefix.size(), prefix), 0); if (!prefix.empty()) { putFile("bdd.txt", txt.substr(prefix.size())); }
            BF back = r.m.readBDDFromFile(path.c_str(), to); u64 want = 0; for (unsigned a = 0; a < (1u << (n + 2)); a++) { unsigned q = 0; for (int x = 0; x < n; x++) if (a >> p[x] & 1) q |= 1u << x; if (f >> q & 1) want |= 1ull << a; }
            EXP("function read back", r.tt(back), want); EXP("same function in the writing manager", w.m.readBDDFromFile(path.c_str(), w.v) == b, 1);
        }
        EXP("reference counts", Cudd_DebugCheck(r.m.getMgr()), 0);
        c.add(C_RUNS, 2 * blk); c.add(C_TRACES, 2 * blk); c.add(C_STATES, blk << n); c.add(C_TRANS, ops); c.add(C_NONTRIV);
    };
    return d;
}
void muteErrors() { static bool q = [] { int f = open("/dev/null", O_WRONLY); return dup2(f, 2) >= 0; }(); (void)q; }   // dddmp reports there; in the worker process only
// a path without a BDD in it (missing, directory, empty, text or comments of any kind) is reported as an error; the manager stays usable
Driver unreadable(bool T) {
    static const char *piece[] = {"", "\n", "#", "# remark\n", "hello", "[INPUT]\na\n", " ", "\t", "0", "1 2 3\n", ".", "\r\n"}; const int K = 12;
    Driver d; d.id = "unreadable"; d.chunk = 8; d.recycle = 50; d.size = [=] { return (i64)K * K * (T ? K : 1) + 3; };
    auto text = [=](i64 i, string &t) { t = string(piece[i % K]) + piece[i / K % K] + piece[i / K / K % K]; };
    d.describe = [=](i64 i) { string t; i64 n = (i64)K * K * (T ? K : 1); if (i >= n) return string(i == n ? "missing file" : i == n + 1 ? "directory" : "file in a missing directory"); text(i, t); return "file with the content '" + t + "'"; };
    d.body = [=](i64 i, Ctx &c) {
        muteErrors(); i64 n = (i64)K * K * (T ? K : 1); string p; if (i < n) { string t; text(i, t); p = putFile("nobdd.txt", t); } else if (i == n) p = scratch() + "/not-there.txt"; else if (i == n + 1) p = scratch(); else p = scratch() + "/not/there.txt";
        u64 ops = 0; auto where = [&] { return d.describe(i); };
        for (int nv = 1; nv <= 3; nv++) {
            Mgr m(nv); BF keep = m.make(1); bool err = false; try { BF b = m.m.readBDDFromFile(p.c_str(), m.v); } catch (std::exception &e) { err = *e.what(); } catch (const char *e) { err = *e; } catch (std::string &e) { err = !e.empty(); }
            EXP("an error is reported", err, true); EXP("other functions keep their values", m.tt(keep), 1); EXP("reference counts", Cudd_DebugCheck(m.m.getMgr()), 0);
        }
        c.add(C_RUNS, 3); c.add(C_TRACES, 3); c.add(C_STATES, 3); c.add(C_TRANS, ops); c.add(C_NONTRIV);
    };
    return d;
}
// a file over more variables than the reader supplies: an error exactly if the stored function depends on one that is missing
Driver foreign(int n) {
    Driver d; d.id = "foreign" + S(n); i64 F = (i64)1 << (1 << n); d.chunk = 1; d.recycle = 200; const int blk = 8; d.size = [=] { return F / blk * 2; };
    d.describe = [=](i64 i) { return "functions number " + S(i / 2 * blk) + " on, " + S(n) + " variables, all shorter variable lists"; };
    d.body = [=](i64 i, Ctx &c) {
        muteErrors(); u64 ops = 0, f = 0; Mgr w(n); w.order(i * 5 % fact(n)); if (i % 2) w.order(0); vector<string> names; for (int j = 0; j < n; j++) names.push_back("v" + S(j)); string path = scratch() + "/bdd.txt"; int m = 0;
        auto where = [&] { return "f=0x" + hex(f) + " read with " + S(m) + " variables, " + d.describe(i); };
        for (int j = 0; j < blk; j++) {
            f = i / 2 * blk + j; BF b = w.make(f); w.m.writeBDDToFile(path.c_str(), "", b, w.v, names); int need = 0; for (int x = 0; x < n; x++) if (tEx(f, n, 1u << x) != f) need = x + 1;
            for (m = 0; m <= n; m++) {
                Mgr r(n + 1); vector<BF> to; for (int x = 0; x < m; x++) to.push_back(r.v[(x * 2 + 1) % (n + 1)]); bool err = false; u64 got = 0;
                try { BF back = r.m.readBDDFromFile(path.c_str(), to); got = r.tt(back); } catch (std::exception &e) { err = *e.what(); }
                EXP("an error is reported", err, m < need);
                if (!err) { u64 want = 0; for (unsigned a = 0; a < (1u << (n + 1)); a++) { unsigned q = 0; for (int x = 0; x < m; x++) if (a >> ((x * 2 + 1) % (n + 1)) & 1) q |= 1u << x; if (f >> q & 1) want |= 1ull << a; } EXP("function read back", got, want); }
                c.add(C_RUNS); c.add(C_TRACES);
            }
        }
        c.add(C_STATES, blk << n); c.add(C_TRANS, ops); c.add(C_NONTRIV);
    };
    return d;
}
vector<Driver> b02(const string &tier) { bool T = tier == "thorough"; vector<Driver> v; v.push_back(roundTrip(2, 24, 4)); v.push_back(roundTrip(3, T ? 120 : 60, 8)); v.push_back(roundTrip(4, T ? 60 : 4, 64)); v.push_back(unreadable(T)); v.push_back(foreign(2)); v.push_back(foreign(3)); if (T) v.push_back(foreign(4)); return v; }
Reg x2("B02", b02);
}
