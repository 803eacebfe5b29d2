// T01 abstract winning traces, T02 "interesting" runs
#include "harness.hpp"
#include "family.hpp"
#include "strategy.hpp"
using namespace mc;
namespace {
typedef vector<char> Set;
vector<string> lines(const string &s) { vector<string> r; std::istringstream i(s); string l; while (std::getline(i, l)) r.push_back(l); return r; }
bool starts(const string &s, const string &p) { return s.compare(0, p.size(), p) == 0; }
vector<string> cells(const string &l) { vector<string> r; string c; for (char ch : l) { if (ch == '|') { r.push_back(c); c = ""; } else c += ch; } r.push_back(c);
    for (auto &x : r) { size_t a = x.find_first_not_of(" \t"), b = x.find_last_not_of(" \t"); x = a == string::npos ? "" : x.substr(a, b - a + 1); } return r; }
string bad(const Run &r) { return r.threw || r.rc != 0 ? "rc=" + S(r.rc) + " " + r.what + r.err : ""; }
// integer-encoded variables in the style of the structured slugs compiler
struct Group { string name; vector<int> bits; int min = 0; bool in = false; };
vector<Group> groups(const Sig &s, vector<int> &single) {
    vector<Group> g; single.clear();
    for (int v = 0; v < s.n(); v++) { string n = s.name(v); size_t at = n.find('@'); if (at == string::npos) { single.push_back(v); continue; }
        string p = n.substr(0, at); Group *f = 0; for (auto &x : g) if (x.name == p) f = &x; if (!f) { g.push_back(Group()); f = &g.back(); f->name = p; f->in = v < s.ni(); f->min = atoi(n.c_str() + at + 3); } f->bits.push_back(v); }
    return g;
}
typedef std::function<string(const Spec &, Ctx &)> Body;
Driver drv(const FamilyPtr &fam, const Body &b, int timeout = 60) {
    Driver d; d.id = fam->name; d.timeout = timeout; d.size = [=] { return fam->size(); }; d.describe = [=](i64 i) { return fam->get(i).text(); };
    d.body = [=](i64 i, Ctx &c) { Spec s = fam->get(i); string e = b(s, c); if (!e.empty()) c.violation(hashKey(s.text()), e + "\n" + s.text()); };
    return d;
}
// ---------------------------------------------------------------- T01
Set attr(const Game &g, const Set &W, bool env) {       // states from which the player falsifies at once or forces W
    Set V(g.NS, 0);
    for (int q = 0; q < g.NS; q++) {
        bool w = !env;
        for (int x = 0; x < g.NI; x++) if (g.eT(q, x)) { bool some = false, all = true; for (int y = 0; y < g.NO; y++) if (g.sT(q, x, y)) { if (W[g.st(x, y)]) some = true; else all = false; } if (env && all) w = true; if (!env && !some) w = false; }
        V[q] = w;
    }
    return V;
}
struct Tab { vector<string> names; vector<vector<string>> cols; };
string t01(const Spec &s, Ctx &c) {
    Run r = run({"--computeAbstractWinningTrace", putFile("s.slugsin", s.text())}); c.add(C_RUNS); c.add(C_TRACES);
    string e = bad(r); if (!e.empty()) return e;
    Game g(s); vector<string> L = lines(r.out); size_t p = 0; vector<int> single; auto gr = groups(s.sig, single); bool any = false;
    for (int env = 1; env >= 0; env--) {
        string tag = env ? "[environment] " : "[system] ", who = env ? "environment" : "system";
        // rounds
        vector<Set> W; W.push_back(Set(g.NS, 0)); int k = -1;
        for (;;) {
            Set n = attr(g, W.back(), env); for (int q = 0; q < g.NS; q++) n[q] |= W.back()[q];
            bool same = n == W.back(); W.push_back(n); c.add(C_STATES, g.NS);
            bool init = !env;
            for (int x = 0; x < g.NI; x++) if (g.envI.get(g.st(x, 0))) { bool some = false, all = true; for (int y = 0; y < g.NO; y++) if (g.sysI.get(g.st(x, y))) { if (n[g.st(x, y)]) some = true; else all = false; } if (env && all) init = true; if (!env && !some) init = false; }
            if (init) { k = W.size() - 1; break; }
            if (same) break;
        }
        if (k < 0) continue;
        bool start = false; for (int q = 0; q < g.NS; q++) if (W[k][q] && g.envI.get(q) && g.sysI.get(q)) start = true;
        if (p >= L.size()) return tag + "nothing printed, expected a result in " + S(k) + " rounds\n" + r.out;
        if (!start) { if (L[p] != "There is no strategy for the " + who + " to win in finite time from an initial position." || p + 1 >= L.size() || !L[p + 1].empty()) return tag + "expected the no-strategy message, printed: " + L[p]; p += 2; continue; }
        if (L[p] != (env ? "Abstract countertrace:" : "Abstract trace:")) return tag + "expected a table, printed: " + L[p];
        p++; vector<vector<string>> rows; for (; p < L.size() && !L[p].empty(); p++) if (L[p][0] == '|') rows.push_back(cells(L[p])); p++;
        if (rows.size() != single.size() + gr.size() + 1) return tag + "wrong number of rows\n" + r.out;
        int cols = k + 1; for (auto &x : rows) if ((int)x.size() != cols + 4) return tag + "wrong number of columns, expected " + S(cols) + "\n" + r.out;
        for (int i = 0; i < cols; i++) if (rows[0][3 + i] != S(i)) return tag + "wrong round numbers";
        // cube of column i (in play order); value "X" anywhere: empty
        vector<Set> C(cols, Set(g.NS, 1)); vector<int> X(cols, 0); vector<string> order; vector<vector<int>> free(cols);
        for (int pass = 0; pass < 2; pass++) { for (int v : single) if ((v < g.ni) == !pass) order.push_back(s.sig.name(v)); for (auto &x : gr) if (x.in == !pass) order.push_back(x.name); }
        for (size_t i = 0; i < order.size(); i++) {
            if (rows[i + 1][1] != order[i]) return tag + "row " + S(i) + " is labelled " + rows[i + 1][1] + ", expected " + order[i];
            int v = -1; for (int u : single) if (s.sig.name(u) == order[i]) v = u; Group *G = 0; for (auto &x : gr) if (x.name == order[i] && v < 0) G = &x;
            for (int j = 0; j < cols; j++) {
                string val = rows[i + 1][3 + j]; if (val == "X") { X[j]++; continue; } if (val == "*") { if (v >= 0) free[j].push_back(v); continue; }
                if (val.empty() || val.find_first_not_of("-0123456789") != string::npos) return tag + "malformed entry " + val;
                int num = atoi(val.c_str()); if (v >= 0 && num != 0 && num != 1) return tag + "malformed entry " + val;
                for (int q = 0; q < g.NS; q++) { int cur = 0; if (v >= 0) cur = q >> v & 1; else { for (size_t b = 0; b < G->bits.size(); b++) cur += (q >> G->bits[b] & 1) << b; cur += G->min; } if (cur != num) C[j][q] = 0; }
            }
        }
        any = true; for (int j = 0; j < cols; j++) if (X[j] && X[j] != (int)order.size()) return tag + "column " + S(j) + " is only partly empty\n" + r.out;
        // column 0: one concrete initial position
        int s0 = -1, n0 = 0; for (int q = 0; q < g.NS; q++) if (C[0][q]) { s0 = q; n0++; }
        if (X[0] || n0 != 1) return tag + "the first column is not one concrete position\n" + r.out;
        if (!g.envI.get(s0) || !g.sysI.get(s0)) return tag + "the first column is not an initial position\n" + r.out;
        // last column
        Set none(g.NS, 0), goal = none; int fin = -1;
        if (!env) { if (!X[k] && !order.empty()) return tag + "the last column must be empty\n" + r.out; }
        else if (!X[k]) { for (int q = 0; q < g.NS; q++) if (C[k][q]) { int x = q & (g.NI - 1); if (fin >= 0 && fin != x) return tag + "final input not unique\n" + r.out; fin = x; } }
        // exact sets: column j (1 <= j < k) stands for the positions in W[k-j] that match it
        bool exact = gr.empty(); vector<Set> D(cols); D[0] = C[0]; D[k] = none; for (int j = 1; j < k; j++) { D[j] = C[j]; if (X[j]) D[j] = none; /* already over */ for (int q = 0; q < g.NS; q++) D[j][q] = D[j][q] && W[k - j][q]; }
        if (exact) for (int j = 0; j < k; j++) {
            Set a = attr(g, D[j + 1], env); for (int q = 0; q < g.NS; q++) if (D[j][q] && !a[q]) return tag + "from a position described by column " + S(j) + " the " + who + " can neither win nor force column " + S(j + 1) + "\n" + r.out;
            if (j + 1 < k) for (int v : free[j + 1]) for (int b = 0; b < 2; b++) { Set n = D[j + 1]; for (int q = 0; q < g.NS; q++) if ((q >> v & 1) != b) n[q] = 0; if (n == D[j + 1]) return tag + "entry should have been a value in column " + S(j + 1); Set a2 = attr(g, n, env); bool ok = true; for (int q = 0; q < g.NS; q++) if (D[j][q] && !a2[q]) ok = false;
                if (ok) return tag + "column " + S(j + 1) + " could be made more concrete: variable " + s.sig.name(v) + "=" + S(b) + "\n" + r.out; }
        }
        else { Set V = none; for (int j = k - 1; j >= 0; j--) { Set a = attr(g, V, env); for (int q = 0; q < g.NS; q++) a[q] = a[q] && C[j][q] && !X[j]; V = a; } if (!V[s0]) return tag + "no play described by the table is winning\n" + r.out; }
        if (env && exact) {
            // the final input: falsifies in every position of the last but one column; X exactly if there is none
            auto kills = [&](int x) { for (int q = 0; q < g.NS; q++) if (D[k - 1][q]) { if (!g.eT(q, x)) return false; for (int y = 0; y < g.NO; y++) if (g.sT(q, x, y)) return false; } return true; };
            bool can = false; for (int x = 0; x < g.NI; x++) if (kills(x)) can = true;
            if (fin >= 0 && !kills(fin)) return tag + "the final input does not falsify the safety guarantees\n" + r.out;
            if (can != (fin >= 0)) return tag + "final input " + (can ? "missing" : "printed although none exists") + "\n" + r.out;
            if (fin >= 0) c.add(C_A);
        }
        if (k > 1) c.add(C_NONTRIV);
        c.sample(s.text() + r.out);
    }
    for (; p < L.size(); p++) if (!L[p].empty()) return "unexpected output: " + L[p] + "\n" + r.out;
    if (!any) c.add(C_B);
    return "";
}
vector<FamilyPtr> fams(const string &tier) {
    bool th = tier == "thorough"; vector<FamilyPtr> v;
    v.push_back(prod("1in1out", {"a"}, {"b"}, {"", "a", "!a", "0"}, {"", "b", "a->b", "!a", "a&b", "0"}, {"", "a'", "b->a'", "!b", "b->(a'<->a)", "(a&b)->0", "a'<->!a", "!(a&a')", "0"},
        {"", "b'", "b'<->a", "b'<->a'", "b->b'", "!b->!b'", "!(a'&b')", "a'->b; b'", "!(a&a')", "(a&b)->!a'", "a'|b", "0"}, {}, 0, {}, 0));
    v.push_back(prod("2in1out", {"a", "e"}, {"b"}, {"", "!a&!e", "a"}, {"", "!b", "e->b"}, {"", "!(a'&e')", "(a->a')&(e->e')", "a'->(a|e)", "b->!(a'&e')", "(a&e)->0"}, {"", "b'->a'", "!(a&e)", "e'->!b'", "(a'<->b)|(e'<->b)", "b'<->!b; !(a&e&b)", "(a'&e')->b'; a->!b'"}, {}, 0, {}, 0));
    v.push_back(prod("1in2out", {"a"}, {"b", "c"}, {"", "!a"}, {"", "!b&!c", "b^c"}, {"", "!(b&c)", "b->a'", "a'<->!a; !(b&c&a)", "(b&c)->0", "(b|c)->a'; !(c&a)"},
        {"", "b'->(b|a')", "(b'<->!b)|(c'<->c)", "c'->b; b'->c'|a'", "!(a&a')", "b'^c'; b->c'", "(b'<->c); (c'<->!b)"}, {}, 0, {}, 0));
    v.push_back(prod("grouped", {"u@0.2.4", "u@1"}, {"x@0.0.3", "x@1"}, {"", "!u@0.2.4&!u@1"}, {"", "!x@0.0.3&!x@1"}, {"", "u@0.2.4'->u@1", "!(u@0.2.4'&u@1')", "(x@0.0.3&x@1)->0"},
        {"", "(x@0.0.3'<->!x@0.0.3)&(x@1'<->(x@1^x@0.0.3))", "!(u@0.2.4&u@1)", "x@1'->x@0.0.3", "u@1'->!x@1'"}, {}, 0, {}, 0));
    v.push_back(prod("noin", {}, {"b", "c"}, {""}, {"", "b", "0"}, {"", "b", "b->c", "!(b&c)", "0"}, {"", "b'<->!b", "(b'<->!b)&(c'<->(b^c))", "c->!c'; c->c'", "0"}, {}, 0, {}, 0));
    v.push_back(prod("noout", {"a", "e"}, {}, {"", "a", "0"}, {""}, {"", "a'<->!a", "!a'|!e'", "(a'<->!a)&(e'<->(a^e))", "0"}, {"", "a", "a'|e'", "!(a&e)", "0"}, {}, 0, {}, 0));
    if (th) {
        auto p = prod("fullEnv", {"a"}, {"b"}, {"", "!a"}, {"", "!b", "a->b"}, {""}, {"", "b'<->a'", "b->b'", "b'<->a", "!(a'&b')", "b'^b", "!(a&b)", "b'->(a|b)"}, {}, 0, {}, 0); p->eT = allFunctions(p->sig, {"a", "b", "a'"}); v.push_back(p);
        auto q = prod("fullSys", {"a"}, {"b"}, {"", "a"}, {"", "!b"}, {"", "b->a'", "!(a&b)"}, {""}, {}, 0, {}, 0); q->sT = allFunctions(q->sig, {"a", "b", "a'", "b'"}); v.push_back(q);
        auto f = prod("2in2out", {"a", "e"}, {"b", "c"}, {"", "!a&!e"}, {"", "!b&!c"}, {"", "!(a'&e')", "(a->a')&(e->e')", "b->(a'<->a)", "(b&c)->0", "c->!(a'&e')"},
            {"", "!(a&e)", "b'->(b|a')", "(b'<->!b)|(c'<->c)", "c'->b; b'->c'|a'", "(b'<->!b)&(c'<->(b^c))", "(b'<->a)&(c'<->e); !(b&c)", "(a'&e')->(b&c)"}, {}, 0, {}, 0); v.push_back(f);
    }
    return v;
}
Reg rt01("T01", [](const string &t) { vector<Driver> v; for (auto &f : withScale(fams(t), t, 6, 8, 2)) v.push_back(drv(f, t01)); return v; });

// ---------------------------------------------------------------- T02
string t02run(const Spec &s, const Game &g, const Run &r, bool forced, Ctx &c) {
    vector<string> L = lines(r.out); vector<int> single; auto gr = groups(s.sig, single);
    bool some = false; for (int q = 0; q < g.NS; q++) if (g.win[q] && g.envI.get(q) && g.sysI.get(q)) some = true;
    const string no = "There is no position that is winning for the system and that satisfies both the initialization assumptions and the initialization guarantees.";
    if (!some) return r.out == no + "\n" ? "" : "expected the statement that there is no winning initial position";
    if (L.size() < 3 || !starts(L[0], "Env.L.A. | Sys.L.G. | Input") || L[0].find("| Output") == string::npos) return "no table printed";
    vector<vector<string>> rows; for (size_t i = 2; i < L.size() && !L[i].empty(); i++) rows.push_back(cells(L[i]));
    int prev = -1, pe = 0, ps = 0; bool peSat = false, psSat = false, lost = false; int m = g.A.size(), n = g.G.size(); vector<int> eHits(m, 0), sHits(n, 0);
    for (size_t i = 0; i < rows.size(); i++) {
        auto &w = rows[i]; string at = "row " + S(i) + ": "; if (lost) return at + "row after the end of the run"; if (w.size() < 3) return at + "malformed";
        auto goal = [](const string &t, int &v, bool &sat) { char *e; v = strtol(t.c_str(), &e, 10); string rest = e; sat = rest == "+"; return e != t.c_str() && (rest == "+" || rest.empty()); };
        int ge, gs; bool se, ss; if (!goal(w[0], ge, se) || !goal(w[1], gs, ss)) return at + "malformed goal column or safety violation reported: " + w[0] + " | " + w[1];
        if (i == 0 ? ge != 0 || gs != 0 : ge != (peSat ? (pe + 1) % m : pe) || gs != (psSat ? (ps + 1) % n : ps)) return at + "goal numbers do not follow from the previous row";
        bool loses = w[2].find("Loses") != string::npos || (w.size() > 3 && w[3].find("Loses") != string::npos); int q = 0;
        if (!loses) {
            if (w.size() != 4) return at + "malformed"; std::set<int> seen;
            for (int part = 0; part < 2; part++) { std::istringstream is(w[2 + part]); string t; while (is >> t) {
                size_t eq = t.find('='); if (eq != string::npos) { int gi = -1; for (size_t k = 0; k < gr.size(); k++) if (gr[k].name == t.substr(0, eq)) gi = k; if (gi < 0 || gr[gi].in != !part) return at + "unknown group " + t; int v = atoi(t.c_str() + eq + 1) - gr[gi].min; if (v < 0 || v >= 1 << gr[gi].bits.size()) return at + "value out of range " + t; for (size_t b = 0; b < gr[gi].bits.size(); b++) { seen.insert(gr[gi].bits[b]); if (v >> b & 1) q |= 1 << gr[gi].bits[b]; } continue; }
                bool neg = t[0] == '!'; if (neg) t = t.substr(1); int v = -1; for (int u : single) if (s.sig.name(u) == t) v = u; if (v < 0 || (v < g.ni) == part) return at + "unknown or misplaced variable " + t; if (!seen.insert(v).second) return at + "variable twice"; if (!neg) q |= 1 << v; } }
            if ((int)seen.size() != g.n) return at + "variables missing";
            if (i == 0 && !(g.envI.get(q) && g.sysI.get(q))) return at + "not an initial position";
            if (!g.win[q]) return at + "not a winning position";
        }
        if (i > 0) {
            bool env = false; for (int x = 0; x < g.NI; x++) if (g.eT(prev, x)) env = true;
            if (loses) { if (env) return at + "the run ends although the environment has an allowed next input"; if (w[2].find("Env.Loses") == string::npos && w.back().find("Env.Loses") == string::npos) return at + "expected Env.Loses"; if (peSat || psSat) return at + "goal marked as reached without a transition"; if (se || ss) return at + "goal marked after the end"; lost = true; }
            else {
                unsigned k = g.key(prev, q & (g.NI - 1), q >> g.ni);
                if (!g.envT.get(k)) return at + "the step violates the safety assumptions"; if (!g.sysT.get(k)) return at + "the step violates the safety guarantees";
                if (g.A[pe].get(k) != peSat) return at + "mark of liveness assumption " + S(pe) + " on the previous row is wrong"; if (g.G[ps].get(k) != psSat) return at + "mark of liveness guarantee " + S(ps) + " on the previous row is wrong";
                if (peSat) eHits[pe]++; if (psSat) sHits[ps]++;
            }
        } else if (loses) return at + "the run ends at once";
        prev = q; pe = ge; ps = gs; peSat = se; psSat = ss; c.add(C_STATES); c.add(C_TRANS, i > 0);
    }
    if (!lost) {
        if (rows.size() != 101) return "expected 101 rows, found " + S(rows.size()); if (peSat || psSat) return "goal marked on the last row";
        if (forced) { for (int i = 0; i < m; i++) if (eHits[i] < 2) return "liveness assumption " + S(i) + " is not reached again and again although the environment can force it"; for (int j = 0; j < n; j++) if (sHits[j] < 2) return "liveness guarantee " + S(j) + " is not reached again and again although all assumptions are"; }
    }
    return "";
}
Body t02(int depth) { return [depth](const Spec &s, Ctx &c) {
    Game g(s); g.solve(); string f = putFile("s.slugsin", s.text()); c.add(C_TRACES);
    // can the environment force every assumption, from everywhere, without running into a deadlock?
    Set nd(g.NS, 1); auto okx = [&](int q, int x, const Set &V, const TT *A) { if (!g.eT(q, x)) return false; for (int y = 0; y < g.NO; y++) if (g.sT(q, x, y) && !((A && A->get(g.key(q, x, y))) || V[g.st(x, y)])) return false; return true; };
    for (;;) { Set m = nd; for (int q = 0; q < g.NS; q++) { bool ok = false; for (int x = 0; x < g.NI; x++) if (okx(q, x, nd, 0)) ok = true; m[q] = ok; } if (m == nd) break; nd = m; }
    bool forced = true;
    for (auto &A : g.A) { Set W(g.NS, 0); for (;;) { Set m = W; for (int q = 0; q < g.NS; q++) if (!W[q]) { bool ok = false; for (int x = 0; x < g.NI; x++) if (okx(q, x, nd, 0) && okx(q, x, W, &A)) ok = true; m[q] = ok; } if (m == W) break; W = m; } for (int q = 0; q < g.NS; q++) if (!W[q] && g.win[q]) forced = false; }
    if (forced) c.add(C_A);
    string err; bool capped = false; std::set<string> seen;
    for (int tail = 0; tail < 2 && err.empty(); tail++) {
        Choice::tail = tail;
        exploreRand([&] {
            if (!err.empty()) return; Run r = run({"--computeInterestingRunOfTheSystem", f}); c.add(C_RUNS);
            string e = bad(r); if (e.empty()) e = t02run(s, g, r, forced, c); if (!e.empty()) err = e + "\n" + r.out; else seen.insert(r.out);
        }, depth, 1 << depth, capped);
    }
    Choice::tail = 0; c.add(C_B, seen.size()); if (seen.size() > 1) c.add(C_NONTRIV);
    if (!seen.empty()) c.sample(s.text() + seen.begin()->substr(0, 700));
    return err;
}; }
vector<FamilyPtr> fams2(const string &tier) {
    bool th = tier == "thorough"; vector<FamilyPtr> v;
    v.push_back(prod("1in1out", {"a"}, {"b"}, {"", "a"}, {"", "b", "a&b"}, {"", "a'", "b->a'", "!b", "a'<->!a", "!(b&a)"},
        {"", "b'", "b'<->a", "b->b'", "!(a'&b')", "!a'", "a'|(a&b')"}, {"a'", "a&a'", "b", "!a'&!b"}, th ? 2 : 1, {"b'", "a'&b'", "b<->b'", "!a&!b&a'&b'"}, th ? 2 : 1));
    v.push_back(prod("live2", {"a"}, {"b"}, {""}, {""}, {"", "b->a'"}, {"", "b->!b'"}, {"a'", "!a'", "b"}, 2, {"b'", "!b'", "b&a'"}, 2));
    v.push_back(prod("2in1out", {"a", "e"}, {"b"}, {""}, {"", "b<->a"}, {"", "!(a'&e')", "b->e'"}, {"", "b'->a'", "a'->!b; e'->b'"}, {"a'", "!a'&b"}, th ? 2 : 1, {"b'", "!b'&e"}, th ? 2 : 1));
    v.push_back(prod("grouped", {"u@0.2.4", "u@1"}, {"x@0.0.3", "x@1"}, {""}, {"", "!x@0.0.3&!x@1"}, {"", "!(u@0.2.4'&u@1')"}, {"", "(x@0.0.3'<->!x@0.0.3)&(x@1'<->(x@1^x@0.0.3))", "x@1'->u@1"}, {"u@1'"}, 1, {"x@1'", "x@0.0.3'&!u@1"}, 1));
    v.push_back(prod("noin", {}, {"b", "c"}, {""}, {"", "b"}, {"", "b", "b->c"}, {"", "b'<->!b", "c->!c'"}, {"b'"}, 1, {"b'", "b&c'"}, 2));
    v.push_back(prod("noout", {"a", "e"}, {}, {"", "a"}, {""}, {"", "a'<->!a", "!a'|!e'"}, {"", "a'|e'"}, {"a'", "!e'"}, 2, {"a'"}, 1));
    return v;
}
Reg rt02("T02", [](const string &t) { vector<Driver> v; for (auto &f : withScale(fams2(t), t, 4, 5, 16)) v.push_back(drv(f, t02(t == "thorough" ? 6 : 3), 120)); return v; });
}
