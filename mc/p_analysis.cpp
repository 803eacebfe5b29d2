// A01 interaction matrix, A02 assumption analysis, A03 interleaving analysis, A04 initial positions,
// A05 weakened safety assumptions, A06 CNF export.  Each report is compared with explicit-state
// computations on the reference game.
#include "harness.hpp"
#include "family.hpp"
#include "strategy.hpp"
using namespace mc;
namespace {
typedef vector<char> Set;
vector<string> lines(const string &s) { vector<string> r; std::istringstream i(s); string l; while (std::getline(i, l)) r.push_back(l); return r; }
bool starts(const string &s, const string &p) { return s.compare(0, p.size(), p) == 0; }
string trim(string s) { size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t"); return a == string::npos ? "" : s.substr(a, b - a + 1); }
vector<FamilyPtr> fams(const string &tier, bool heavy) {
    vector<FamilyPtr> v;
    v.push_back(prod("1in1out", {"a"}, {"b"}, {"", "a", "!a", "0"}, {"", "b", "a^b", "a&b"}, {"", "a'", "a|a'", "b->a'; a|a'", "!b; a'<->b", "b&a'", "0"},
        {"", "b'", "b'<->a", "b'<->a'", "b->b'", "!(a'&b')", "a'->b", "0"}, {"a'", "a&a'", "b", "a^b'"}, tier == "quick" ? 1 : 2, {"b'", "!b'", "a'&b'", "b<->b'"}, 2));
    v.push_back(prod("safety", {"a"}, {"b"}, {"", "a"}, {"", "!b", "a<->b", "a"}, {"", "a'; b->!a'", "b->a'", "a->a'; b|!a'; !b|a", "!(a&b)"},
        {"", "b'; !b", "b->!a'", "a'->!b'; b'->a'", "a|b|b'", "!(a'&b)", "b'<->!b"}, {"a'", "!a'"}, 1, {"b'", "a'"}, 2));
    v.push_back(prod("2in1out", {"a", "e"}, {"b"}, {"", "a&!e"}, {"", "b<->a"}, {"", "!(a'&e')", "a'->!e; b->e'", "a'|e'; a|e"}, {"", "b'->a'", "e'->!b'; a'->b'", "b'<->(a^e')"},
        {"a'", "!a'&b"}, heavy ? 1 : 2, {"b'", "b'^a", "!b'&e"}, heavy ? 1 : 2));
    v.push_back(prod("1in2out", {"a"}, {"b", "c"}, {"", "a"}, {"", "!b&!c"}, {"", "b->a'", "a'<->(b|c); b|a'"}, {"", "!(b'&c')", "b'<->a'; c'<->b", "a'->!c'", "b'^c'"},
        {"a'", "b&a'"}, heavy ? 1 : 2, {"b'", "c'", "b&c"}, heavy ? 1 : 2));
    if (!heavy || tier == "thorough") {
        v.push_back(prod("noin", {}, {"b", "c"}, {""}, {"", "b", "0"}, {"", "b", "b->c; c", "0"}, {"", "b'<->!b", "c->!c'", "0"}, {"b'"}, 1, {"b'", "b&c'", "b^b'"}, 2));
        v.push_back(prod("noout", {"a", "e"}, {}, {"", "a", "0"}, {""}, {"", "a'<->!a", "!a'|!e'; a'|e'", "0"}, {"", "a", "a'|e'", "0"}, {"a'", "!e'"}, 2, {"a'", "a&e'"}, 2));
    }
    if (tier == "thorough") for (auto &f : realizFamilies("small")) { f->name = "r-" + f->name; v.push_back(f); }
    return v;
}
typedef std::function<string(const Spec &, Ctx &)> Body;
Driver drv(const FamilyPtr &fam, const Body &b) {
    Driver d; d.id = fam->name; d.size = [=] { return fam->size(); }; d.describe = [=](i64 i) { return fam->get(i).text(); };
    d.body = [=](i64 i, Ctx &c) { Spec s = fam->get(i); string e = b(s, c); if (!e.empty()) c.violation(hashKey(s.text()), e + "\n" + s.text()); };
    return d;
}
vector<Driver> all(const string &t, bool heavy, const Body &b) { vector<Driver> v; for (auto &f : withScale(fams(t, heavy), t, 7, 8, 1)) v.push_back(drv(f, b)); return v; }
string bad(const Run &r) { return r.threw || r.rc != 0 ? "rc=" + S(r.rc) + " " + r.what + r.err : ""; }
void solve(Game &g, Ctx &c) { g.solve(); c.add(C_STATES, g.refStates); c.add(C_TRANS, g.refTrans); }

// ---------------------------------------------------------------- A01
string a01(const Spec &s, Ctx &c) {
    Run r = run({"--analyzeSafetyLivenessInteraction", putFile("s.slugsin", s.text())}); c.add(C_RUNS); c.add(C_TRACES);
    string e = bad(r); if (!e.empty()) return e;
    vector<string> L = lines(r.out); vector<std::pair<int, int>> got; bool cl15 = false, ro15 = false, cl10 = false;
    int rows = 0, yes = 0;
    for (auto &l : L) if (starts(l, "| ") && (l.find(" yes ") != string::npos || l.find(" no ") != string::npos)) {
        vector<string> f; std::istringstream is(l); string x; while (std::getline(is, x, '|')) if (!trim(x).empty()) f.push_back(trim(x));
        if (f.size() != 6) return "malformed row " + l;
        Spec t = s; if (f[0] != "+") t.envT.clear(); if (f[1] != "+") t.A.clear(); if (f[2] != "+") t.sysT.clear(); if (f[3] != "+") t.G.clear();
        int idx = (f[0] == "+") * 8 + (f[1] == "+") * 4 + (f[2] == "+") * 2 + (f[3] == "+"); if (idx != rows) return "unexpected row order";
        rows++;
        Game g(t); solve(g, c); bool cl = g.realizableClassic(), ro = g.realizableRobotics(); if (idx == 15) { cl15 = cl; ro15 = ro; } if (idx == 10) cl10 = cl;
        yes += cl;
        if ((f[4] == "yes") != cl) return "classical entry wrong in row " + l + ", expected " + S(cl);
        if ((f[5] == "yes") != ro) return "robotics entry wrong in row " + l + ", expected " + S(ro);
    }
    if (rows != 16) return "expected 16 rows, found " + S(rows);
    if (yes && yes < 16) c.add(C_NONTRIV);
    bool has = r.out.find("With a non-strict implication") != string::npos;
    if (has != (!cl15 || !ro15)) return "non-strict part missing or unexpected";
    if (has) {
        Spec t = s; t.sig.out.push_back("z_"); t.envI.clear(); t.sysI.clear(); t.envT.clear(); t.sysT.clear(); t.A.clear(); t.G.clear();
        // rebuild the formulas over the larger signature by re-parsing their truth tables
        int n = s.sig.n(), n2 = n + 1;
        auto lift = [&](const TT &x) { TT y(2 * n2); for (unsigned k = 0; k < (1u << (2 * n2)); k++) { unsigned pre = k & ((1u << n) - 1), post = (k >> n2) & ((1u << n) - 1); y.set(k, x.get(pre | post << n)); } return y; };
        Game o(s); TT one(2 * n2, true), zp = TT::var(2 * n2, n), zq = TT::var(2 * n2, n2 + n);
        t.envI.push_back({"", lift(o.envI)}); t.sysI.push_back({"", lift(o.sysI) & !zp}); t.envT.push_back({"", lift(o.envT)});
        t.sysT.push_back({"", !(zq ^ (zp | !lift(o.sysT)))});
        for (auto &x : o.A) t.A.push_back({"", lift(x)});
        for (auto &x : o.G) t.G.push_back({"", lift(x)});
        t.G.push_back({"", !zq});
        Game g(t); solve(g, c); bool cl = g.realizableClassic(), ro = g.realizableRobotics(); c.add(C_A);
        bool sayC = r.out.find("- the specification becomes realizable in the non-robotics semantics") != string::npos, sayC0 = r.out.find("- nothing changes in the non-robotics semantics") != string::npos;
        bool sayR = r.out.find("- and the specification becomes realizable in the robotics semantics") != string::npos, sayR0 = r.out.find("- and nothing changes in the robotics semantics") != string::npos;
        if (sayC == sayC0 || sayR == sayR0) return "non-strict statements missing or contradictory";
        if (cl) c.add(C_B);
        if (sayC != (cl && !cl15)) return "non-strict, classical: expected " + S(cl && !cl15);
        if (sayR != (ro && !ro15)) return "non-strict, robotics: expected " + S(ro && !ro15);
    }
    // falsification distances
    Game g(s); int k = -1; Set W(g.NS, 0); bool cleanStart = false;
    for (int round = 1;; round++) {
        Set V = W; bool ch = false;
        for (int q = 0; q < g.NS; q++) if (!W[q]) {
            bool w = !cl10 ? false : true;
            for (int x = 0; x < g.NI; x++) {
                if (!cl10) { if (!g.eT(q, x)) continue; bool all = true; for (int y = 0; y < g.NO; y++) if (g.sT(q, x, y) && !W[g.st(x, y)]) all = false; if (all) w = true; }
                else { if (!g.eT(q, x)) continue; bool any = false; for (int y = 0; y < g.NO; y++) if (g.sT(q, x, y) && W[g.st(x, y)]) any = true; if (!any) w = false; }
            }
            if (w) { V[q] = 1; ch = true; }
        }
        W = V; bool init = cl10;
        for (int x = 0; x < g.NI; x++) if (g.envI.get(g.st(x, 0))) {
            bool any = false, allw = true; for (int y = 0; y < g.NO; y++) if (g.sysI.get(g.st(x, y))) { if (W[g.st(x, y)]) any = true; else allw = false; }
            if (!cl10 && allw) init = true;
            if (cl10 && !any) init = false;
        }
        if (init) { k = round; break; }
        if (!ch) break;
    }
    for (int q = 0; q < g.NS; q++) if (g.envI.get(q) && g.sysI.get(q) && W[q]) cleanStart = true;
    string who = cl10 ? "the system can" : "the environment can", whom = cl10 ? "environment's" : "system's", want;
    if (k >= 0) want = "Note that with only the safety assumptions and guarantees, " + who + " falsify the " + whom + " specification within " + S(k) + " steps.";
    else want = "Note that with only the safety assumptions and guarantees, " + who + "'t falsify the " + whom + " specification.";
    string got1; for (auto &l : L) if (starts(l, "Note that")) { if (!got1.empty()) return "two notes"; got1 = l; }
    if (got1 != want) return "expected: " + want + "\nprinted:  " + got1;
    bool how = r.out.find("However, there is no") != string::npos;
    if (!cl10 && k >= 0 && how != !cleanStart) return "remark about the initialization constraints wrong";
    if (how && (cl10 || k < 0)) return "stray remark";
    c.sample(s.text() + "=> " + want);
    return "";
}
Reg ra01("A01", [](const string &t) { return all(t, true, a01); });

// ---------------------------------------------------------------- A02
// positions from which goal j is k "rounds" away (reactive distance), for the fixed winning set
vector<vector<Set>> distances(const Game &g, const Set &win) {
    vector<vector<Set>> D;
    for (auto &G : g.G) {
        vector<Set> d; Set Y(g.NS, 0);
        for (;;) {
            Set N = Y;
            for (auto &A : g.A) {
                Set X(g.NS, 1);
                for (;;) {
                    Set X2(g.NS, 0);
                    for (int q = 0; q < g.NS; q++) { bool ok = true; for (int x = 0; x < g.NI && ok; x++) if (g.eT(q, x)) { bool any = false; for (int y = 0; y < g.NO; y++) if (g.sT(q, x, y)) { unsigned t = g.st(x, y), k = g.key(q, x, y); if ((G.get(k) && win[t]) || Y[t] || (!A.get(k) && X[t])) any = true; } ok = any; } X2[q] = ok; }
                    if (X2 == X) break; X = X2;
                }
                for (int q = 0; q < g.NS; q++) if (X[q]) N[q] = 1;
            }
            bool same = N == Y; Y = N; d.push_back(Y); if (same) break;
        }
        D.push_back(d);
    }
    return D;
}
string a02(const Spec &s, Ctx &c) {
    // odd-numbered assumptions are given names
    std::ostringstream o; vector<string> names; string t = s.text(); { int k = 0; string sec; for (auto &l : lines(t)) {
        if (!l.empty() && l[0] == '[') { sec = l; k = 0; }
        else if (!l.empty() && (sec == "[ENV_TRANS]" || sec == "[ENV_LIVENESS]")) { k++; if (k % 2) { names.push_back(string(sec == "[ENV_TRANS]" ? "es" : "el") + S(k)); o << "## " << names.back() << "\n"; } else names.push_back((sec == "[ENV_TRANS]" ? "Safety Assumption " : "Liveness Assumption ") + S(k)); }
        o << l << "\n"; } }
    if (s.A.empty()) names.push_back("*");
    Run r = run({"--analyzeAssumptions", putFile("s.slugsin", o.str())}); c.add(C_RUNS); c.add(C_TRACES);
    string e = bad(r); if (!e.empty()) return e;
    Game g(s); solve(g, c); bool real = g.realizableClassic(); c.add(real ? C_A : C_B); vector<string> L = lines(r.out);
    if (real != (r.out.find("Starting with a realizable specification") != string::npos) || real == (r.out.find("Starting with an unrealizable specification") != string::npos)) return "realizability statement wrong, expected " + S(real);
    vector<string> rep; for (auto &l : L) if (!l.empty() && l[0] == '"') rep.push_back(l);
    if (!real) return rep.empty() ? "" : "assumptions analyzed for an unrealizable specification";
    c.add(C_NONTRIV);
    int nS = s.envT.size(), nL = std::max<size_t>(1, s.A.size());
    if ((int)rep.size() != nS + nL) return "expected " + S(nS + nL) + " lines about assumptions, found " + S(rep.size()) + "\n" + r.out;
    auto ref = distances(g, g.win);
    for (int i = 0; i < nS + nL; i++) {
        string nm = names[i]; size_t q = rep[i].rfind("\" "); if (nm != "*" && rep[i].substr(1, q - 1) != nm) return "assumption name wrong: " + rep[i] + ", expected " + nm;
        string say = rep[i].substr(q + 2); Spec t = s; if (i < nS) t.envT.erase(t.envT.begin() + i); else if (!s.A.empty()) t.A.erase(t.A.begin() + (i - nS));
        Game h(t); solve(h, c); bool lost = false, lostE = false, lostES = false; for (int p = 0; p < g.NS; p++) if (g.win[p] && !h.win[p]) { lost = true; if (g.envI.get(p)) { lostE = true; if (g.sysI.get(p)) lostES = true; } }
        if (!h.realizableClassic()) { if (say != "is crucially needed.") return "assumption '" + nm + "' is crucially needed, but: " + say; continue; }
        if (say == "is crucially needed.") return "assumption '" + nm + "' is not crucially needed";
        if (lost != starts(say, "makes more positions winning")) return "effect of '" + nm + "' on the winning positions misreported: " + say;
        if (lost) { bool helps = say.find("which helps") != string::npos; if (lostES && !helps) return "effect on the robotics semantics missed: " + say; if (!lostE && helps) return "no effect on the robotics semantics: " + say; continue; }
        if (i < nS && h.envT == g.envT) { if (!starts(say, "is redundant")) return "redundant assumption '" + nm + "': " + say; continue; }
        if (starts(say, "is redundant")) return "'" + nm + "' is not redundant";
        auto nd = distances(h, h.win); std::set<int> want;
        for (size_t j = 0; j < nd.size(); j++) for (size_t k = 0; k < nd[j].size(); k++) if (ref[j][std::min(k, ref[j].size() - 1)] != nd[j][k]) want.insert(j);
        std::set<int> got; if (starts(say, "makes reaching the system goals ")) { string x = say.substr(32); size_t p; while ((p = x.find('(')) != string::npos) { size_t z = x.find(')', p); x.erase(p, z - p + 1); } for (auto &ch : x) if (!isdigit(ch)) ch = ' '; std::istringstream is(x); int v; while (is >> v) got.insert(v); }
        else if (say != "is superfluous.") return "unknown classification: " + say;
        if (got != want) { string w; for (int v : want) w += S(v) + " "; return "'" + nm + "' speeds up goals {" + w + "} but: " + say; }
        if (!want.empty()) c.add(C_C);
    }
    c.sample(s.text() + "=> " + r.out);
    return "";
}
Reg ra02("A02", [](const string &t) { return all(t, true, a02); });

// ---------------------------------------------------------------- A03
// Realizability when the outputs in mask `before` of the next step are committed before the next input is read.
bool realBefore(const Game &g, unsigned before, Ctx &c) {
    int m = g.A.size(), n = g.G.size(); vector<int> bv; for (int v = 0; v < g.no; v++) if (before >> v & 1) bv.push_back(v);
    int NB = 1 << bv.size(); auto bits = [&](int b) { unsigned y = 0; for (size_t k = 0; k < bv.size(); k++) if (b >> k & 1) y |= 1u << bv[k]; return y; };
    // nodes: commit (s,i,j,p) system; env (s,i,j,b); answer (s,i,j,b,x) system
    int C0 = 0, CN = g.NS * m * n * 3, E0 = CN, EN = g.NS * m * n * NB, R0 = E0 + EN, RN = EN * g.NI; int T = R0 + RN;
    vector<char> owner(T, 0), prio(T, 0); vector<vector<int>> su(T); i64 tr = 0;
    for (int s = 0; s < g.NS; s++) for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
        int base = (s * m + i) * n + j;
        for (int p = 0; p < 3; p++) { int v = C0 + base * 3 + p; prio[v] = p; for (int b = 0; b < NB; b++) su[v].push_back(E0 + base * NB + b); }
        for (int b = 0; b < NB; b++) {
            int v = E0 + base * NB + b; owner[v] = 1;
            for (int x = 0; x < g.NI; x++) if (g.eT(s, x)) {
                int w = R0 + (base * NB + b) * g.NI + x; su[v].push_back(w);
                for (int y = 0; y < g.NO; y++) if ((y & before) == bits(b) && g.sT(s, x, y)) { unsigned k = g.key(s, x, y); int i2 = i, j2 = j, p = 0; if (g.A[i].get(k)) { i2 = (i + 1) % m; if (!i2) p = 1; } if (g.G[j].get(k)) { j2 = (j + 1) % n; if (!j2) p = 2; } su[w].push_back(C0 + ((g.st(x, y) * m + i2) * n + j2) * 3 + p); }
                tr += su[w].size() + 1;
            }
        }
    }
    // answer nodes for disallowed inputs are unreachable; give them to the environment so that they are not "lost"
    vector<char> w = zielonka(owner, prio, su); c.add(C_STATES, T); c.add(C_TRANS, tr);
    for (int x = 0; x < g.NI; x++) { if (!g.envI.get(g.st(x, 0))) continue; bool ok = false; for (int y = 0; y < g.NO; y++) if (g.sysI.get(g.st(x, y)) && w[C0 + (g.st(x, y) * m * n) * 3]) ok = true; if (!ok) return false; }
    return true;
}
string a03(const Spec &s, Ctx &c) {
    Run r = run({"--analyzeInterleaving", putFile("s.slugsin", s.text())}); c.add(C_RUNS); c.add(C_TRACES);
    string e = bad(r); if (!e.empty()) return e;
    Game g(s); bool real = realBefore(g, 0, c);
    if (real != (r.out.find("Starting point is a realizable") != string::npos) || real == (r.out.find("Starting point is an unrealizable") != string::npos)) return "realizability statement wrong, expected " + S(real);
    unsigned lst = 0; for (auto &l : lines(r.out)) if (starts(l, "- ")) { bool f = false; for (int v = 0; v < g.no; v++) if (s.sig.out[v] == l.substr(2)) { lst |= 1u << v; f = true; } if (!f) return "unknown signal listed: " + l; }
    c.add(real ? C_A : C_B);
    if (!real) return lst ? "signals listed for an unrealizable specification" : "";
    bool none = r.out.find("becomes unrealizable when") != string::npos, some = r.out.find("stays realizable when") != string::npos;
    if (none == some) return "no or contradictory statement\n" + r.out;
    if (none != (lst == 0)) return "statement and list do not fit\n" + r.out;
    if (lst) c.add(C_NONTRIV);
    if (!realBefore(g, lst, c)) return "the specification is not realizable when all listed signals are set before reading the input\n" + r.out;
    for (int v = 0; v < g.no; v++) if (!(lst >> v & 1) && realBefore(g, lst | 1u << v, c)) return "signal " + s.sig.out[v] + " could be set before reading the input as well\n" + r.out;
    if (lst) c.sample(s.text() + "=> " + r.out);
    return "";
}
Reg ra03("A03", [](const string &t) { return all(t, false, a03); });

// ---------------------------------------------------------------- A04
struct Int { string name; int lo, hi; vector<int> bits; };
string a04(const Spec &s, Ctx &c) {
    Game g(s); solve(g, c); vector<Int> ints;
    for (int v = 0; v < g.n; v++) { string x = s.sig.name(v); size_t at = x.find("@0."); if (at == string::npos) continue; Int z; z.name = x.substr(0, at); sscanf(x.c_str() + at + 3, "%d.%d", &z.lo, &z.hi); z.bits = {v}; for (int b = 1;; b++) { int f = -1; for (int k = 0; k < g.n; k++) if (s.sig.name(k) == z.name + "@" + S(b)) f = k; if (f < 0) break; z.bits.push_back(f); } ints.push_back(z); }
    for (int lim = 0; lim < 2; lim++) for (int reach = 0; reach < 2; reach++) {
        // with lim, the first initialization constraint of either player is marked as a variable limit
        std::ostringstream o; string sec; bool marked = false; TT care(2 * g.n, true);
        for (auto &l : lines(s.text())) { if (!l.empty() && l[0] == '[') { sec = l; marked = false; } else if (!l.empty() && lim && !marked && (sec == "[ENV_INIT]" || sec == "[SYS_INIT]")) { marked = true; o << "## Variable limits: x\n"; care = care & (sec == "[ENV_INIT]" ? s.envI[0].tt : s.sysI[0].tt); } o << l << "\n"; }
        if (lim && s.envI.empty() && s.sysI.empty()) continue;
        vector<string> a{"--analyzeInitialPositions"}; if (reach) a.push_back("--restrictToReachableStates"); a.push_back(putFile("s.slugsin", o.str()));
        Run r = run(a); c.add(C_RUNS); c.add(C_TRACES); string e = bad(r); string tag = string(lim ? "[limits] " : "") + (reach ? "[reachable] " : ""); if (!e.empty()) return tag + e;
        Set C(g.NS), E(g.NS), Y(g.NS); for (int q = 0; q < g.NS; q++) { C[q] = care.get(q); E[q] = g.envI.get(q); Y[q] = g.sysI.get(q); }
        if (reach) { Set R(g.NS, 0); vector<int> st; for (int q = 0; q < g.NS; q++) if (E[q] && Y[q]) { R[q] = 1; st.push_back(q); }
            while (!st.empty()) { int q = st.back(); st.pop_back(); for (int x = 0; x < g.NI; x++) if (g.eT(q, x)) for (int y = 0; y < g.NO; y++) if (g.sT(q, x, y) && !R[g.st(x, y)]) { R[g.st(x, y)] = 1; st.push_back(g.st(x, y)); } }
            for (int q = 0; q < g.NS; q++) C[q] = C[q] && R[q]; }
        auto cnt = [&](const std::function<bool(int)> &f) { int k = 0; for (int q = 0; q < g.NS; q++) if (C[q] && f(q)) k++; return k; };
        int nIn = 0, nAll = 0, nLose = 0;
        for (int x = 0; x < g.NI; x++) { bool in = false, ok = false; for (int y = 0; y < g.NO; y++) { int q = g.st(x, y); if (C[q]) in = true; if (g.win[q] && Y[q]) ok = true; } if (in) { nIn++; if (E[g.st(x, 0)]) { nAll++; if (!ok) nLose++; } } }
        vector<string> want; auto ln = [&](const string &h, int x, int y) { want.push_back(h + ": " + S(x) + " out of " + S(y)); };
        ln("Number of winning positions", cnt([&](int q) { return g.win[q]; }), cnt([&](int) { return true; }));
        ln("Number of winning positions satisfying the initialization assumptions", cnt([&](int q) { return g.win[q] && E[q]; }), cnt([&](int q) { return E[q]; }));
        ln("Number of winning positions satisfying the initialization guarantees", cnt([&](int q) { return g.win[q] && Y[q]; }), cnt([&](int q) { return Y[q]; }));
        ln("Number of winning positions satisfying the initialization assumptions and guarantees", cnt([&](int q) { return g.win[q] && E[q] && Y[q]; }), cnt([&](int q) { return E[q] && Y[q]; }));
        ln("Number of initial input assignments that are allowed for the environment", nAll, nIn);
        ln("Number of initial input assignments that force the system to move to a losing position", nLose, nIn);
        vector<string> L = lines(r.out); for (size_t i = 0; i < want.size(); i++) if (i >= L.size() || L[i] != want[i]) return tag + "expected '" + want[i] + "', printed '" + (i < L.size() ? L[i] : "") + "'";
        int w = cnt([&](int q) { return g.win[q]; }); if (w && w < g.NS) c.add(C_NONTRIV);
        // cubes
        struct Sec { string h; std::function<bool(int)> f; };
        auto dead = [&](int q) { for (int x = 0; x < g.NI; x++) if (g.eT(q, x)) return false; return true; };
        vector<Sec> secs = {{"Some cubes of winning positions: ", [&](int q) { return g.win[q]; }}, {"Some cubes of non-winning positions: ", [&](int q) { return !g.win[q]; }},
            {"Some cubes of winning positions satisfying the initialization assumptions: ", [&](int q) { return g.win[q] && E[q]; }}, {"Some cubes of non-winning positions satisfying the initialization assumptions: ", [&](int q) { return !g.win[q] && E[q]; }},
            {"Some cubes of winning positions satisfying the initialization guarantees: ", [&](int q) { return g.win[q] && Y[q]; }}, {"Some cubes of non-winning positions satisfying the initialization guarantees: ", [&](int q) { return !g.win[q] && Y[q]; }},
            {"Some cubes of winning positions satisfying the initialization assumptions & guarantees: ", [&](int q) { return g.win[q] && E[q] && Y[q]; }}, {"Some cubes of non-winning positions satisfying the initialization assumptions & guarantees: ", [&](int q) { return !g.win[q] && E[q] && Y[q]; }},
            {"Some positions from which the environment player cannot prevent to violate some safety assumptions:", [&](int q) { return g.win[q] && dead(q); }}};
        for (auto &sc : secs) {
            size_t p = 0; while (p < L.size() && L[p] != sc.h) p++; if (p == L.size()) return tag + "section missing: " + sc.h;
            vector<string> cubes; for (p++; p < L.size() && !L[p].empty(); p++) cubes.push_back(L[p]);
            int in = cnt(sc.f), tot = cnt([](int) { return true; }); string where = tag + sc.h + " ";
            if (in == tot) { if (cubes != vector<string>{"- TRUE"}) return where + "expected TRUE"; continue; }
            if (in == 0) { if (cubes != vector<string>{"--(none)"}) return where + "expected (none), got " + join(cubes, ";"); continue; }
            if (cubes.empty()) return where + "no cube although some position qualifies";
            if (cubes.size() > 7) return where + "more than seven cubes"; c.add(C_C, cubes.size());
            for (auto &cu : cubes) {
                if (!starts(cu, " -")) return where + "malformed cube " + cu; std::istringstream is(cu.substr(2)); string lit; vector<std::pair<int, bool>> ls; std::set<string> given;
                while (is >> lit) { size_t eq = lit.find('='); if (!given.insert(lit.substr(0, eq)).second) return where + "repeated variable in" + cu;
                    if (eq != string::npos) {    // an integer variable: one of the values of the cube is shown
                        const Int *iv = nullptr; for (auto &z : ints) if (z.name == lit.substr(0, eq)) iv = &z; if (!iv) return where + "unknown integer variable in" + cu; int val = atoi(lit.c_str() + eq + 1) - iv->lo; if (val < 0 || val >> iv->bits.size()) return where + "impossible value in" + cu;
                        for (size_t k = 0; k < iv->bits.size(); k++) ls.push_back({iv->bits[k], val >> k & 1}); continue; }
                    bool neg = lit[0] == '!'; if (neg) lit = lit.substr(1); int v = -1; for (int k = 0; k < g.n; k++) if (s.sig.name(k) == lit) v = k; if (v < 0 || lit.find('@') != string::npos) return where + "unknown literal " + lit; ls.push_back({v, !neg}); }
                auto bound = [&](int skip) { int hit = 0, out = 0; for (int q = 0; q < g.NS; q++) if (C[q]) { bool m = true; for (size_t k = 0; k < ls.size(); k++) if ((int)k != skip && ((q >> ls[k].first & 1) != ls[k].second)) m = false; if (m) { if (sc.f(q)) hit++; else out++; } } return std::make_pair(hit, out); };
                auto b = bound(-1); if (b.second) return where + "cube" + cu + " contains a position that does not belong to it"; if (!b.first && ints.empty()) return where + "cube" + cu + " contains no position"; if (ls.empty()) return where + "empty cube";
            }
        }
        c.sample(tag + s.text() + "=> " + r.out);
    }
    return "";
}
Reg ra04("A04", [](const string &t) { auto v = all(t, false, a04); v.push_back(drv(initFamily(t == "thorough"), a04));
    v.push_back(drv(prod("grouped", {"e", "x@0.2.5", "x@1"}, {"p", "y@0.0.3", "y@1"}, {"", "!(x@0.2.5&x@1)", "e"}, {"", "!y@0.0.3|p", "y@0.0.3<->x@1"}, {"", "x@1->x@1'", "e->(x@0.2.5'^x@1')"},
        {"", "(y@1'<->x@0.2.5')&(!y@1|!e')", "x@1->(y@0.0.3'&!y@0.0.3)", "!(x@0.2.5'&x@1')|(p&!y@1)", "p'->(y@1&!y@0.0.3)"}, {}, 0, {"p'&y@1'", "y@0.0.3'|x@1"}, 2), a04));
    v.push_back(drv(prod("three", {"a", "e", "f"}, {"b"}, {"", "a->!f", "!e"}, {"", "b->a"}, {"", "f->a'", "a'|e'|f'"}, {"", "(a'^e'^f')->b'; !b|f'", "a&e->!f'", "b->(a'|!f')", "(a&!e)->b&!b'; f->!b"}, {}, 0, {"b'&f'", "!b'"}, 1), a04));
    return v; });

// ---------------------------------------------------------------- A05
string a05(const Spec &s, Ctx &c) {
    Run r = run({"--computeWeakenedSafetyAssumptions", putFile("s.slugsin", s.text())}); c.add(C_RUNS); c.add(C_TRACES);
    string e = bad(r); if (!e.empty()) return e;
    vector<string> L = lines(r.out); if (L.size() < 2 || L[0] != "# Simplified safety assumption CNF clauses:" || L.back() != "# End of list") return "unexpected output\n" + r.out;
    Game g(s); solve(g, c); bool real = g.realizableClassic(); c.add(real ? C_A : C_B);
    int nv = 2 * g.n; vector<TT> cl;
    for (size_t i = 1; i + 1 < L.size(); i++) {
        TT t(nv); std::istringstream is(L[i]); string lit; while (is >> lit) { bool neg = lit[0] == '!'; if (neg) lit = lit.substr(1); bool pr = lit.back() == '\''; if (pr) lit.pop_back(); int v = -1; for (int k = 0; k < g.n; k++) if (s.sig.name(k) == lit) v = k; if (v < 0 || (pr && v >= g.ni)) return "literal not allowed in an assumption: " + L[i]; TT x = TT::var(nv, v + (pr ? g.n : 0)); t = t | (neg ? !x : x); }
        cl.push_back(t);
    }
    auto conj = [&](int skip) { TT t(nv, true); for (size_t i = 0; i < cl.size(); i++) if ((int)i != skip) t = t & cl[i]; return t; };
    TT all_ = conj(-1); if (!((g.envT & !all_).none())) return "the clauses are not implied by the original safety assumptions\n" + r.out;
    if (!real) return "";
    auto realWith = [&](const TT &x) { Game h = g; h.envT = x; h.win.clear(); solve(h, c); return h.realizableClassic(); };
    if (!realWith(all_)) return "the specification is not realizable with the weakened assumptions\n" + r.out;
    if (!cl.empty()) c.add(C_NONTRIV);
    for (size_t i = 0; i < cl.size(); i++) if (realWith(conj(i))) return "clause '" + L[i + 1] + "' is not needed for realizability\n" + r.out;
    c.sample(s.text() + "=> " + r.out);
    return "";
}
Reg ra05("A05", [](const string &t) { return all(t, true, a05); });

// ---------------------------------------------------------------- A06
string a06(const Spec &s, Ctx &c) {
    Run r = run({"--computeCNFFormOfTheSpecification", putFile("s.slugsin", s.text())}); c.add(C_RUNS); c.add(C_TRACES);
    string e = bad(r); if (!e.empty()) return e;
    Game g(s); int nv = 2 * g.n; std::map<int, int> var; TT sg(nv, true), sa(nv, true), in(nv, true); vector<vector<TT>> live(2); std::set<int> seen;
    for (auto &l : lines(r.out)) {
        size_t q = l.find(':'); if (q == string::npos) return "malformed line " + l; string k = l.substr(0, q); std::istringstream is(l.substr(q + 1));
        if (k == "Input" || k == "Output") { string nm; int a, b; if (!(is >> nm >> a >> b)) return "malformed " + l; int v = -1; for (int z = 0; z < g.n; z++) if (s.sig.name(z) == nm) v = z; if (v < 0 || (k == "Input") != (v < g.ni)) return "wrong variable line " + l; if (!seen.insert(v).second || var.count(a) || var.count(b)) return "duplicate " + l; var[a] = v; var[b] = v + g.n; continue; }
        auto lit = [&](int x, string &er) { if (!var.count(abs(x))) { er = "unknown variable number in " + l; return TT(nv); } TT t = TT::var(nv, var[abs(x)]); return x > 0 ? t : !t; };
        string er; int x; bool liveLine = k == "LivenessGuarantee" || k == "LivenessAssumption";
        if (liveLine) { TT dnf(nv), cube(nv, true); bool open = false; while (is >> x) { if (x == 0) { dnf = dnf | cube; cube = TT(nv, true); open = false; } else { cube = cube & lit(x, er); open = true; } } if (open) return "unterminated cube: " + l; live[k == "LivenessAssumption"].push_back(dnf); }
        else { TT cl(nv); bool end = false; while (is >> x) { if (end) return "text after the end of a clause: " + l; if (x == 0) end = true; else cl = cl | lit(x, er); } if (!end) return "unterminated clause: " + l;
            if (k == "SafetyGuarantee") sg = sg & cl; else if (k == "SafetyAssumption") sa = sa & cl; else if (k == "Init") in = in & cl; else return "unknown line " + l; }
        if (!er.empty()) return er;
    }
    if ((int)seen.size() != g.n) return "variables missing";
    if (sg != g.sysT) return "safety guarantees differ"; if (sa != g.envT) return "safety assumptions differ"; if (in != (g.envI & g.sysI)) return "initial conditions differ";
    for (int ty = 0; ty < 2; ty++) {
        auto &ref = ty ? g.A : g.G; if (ref.size() != live[ty].size()) return "number of liveness formulas differs";
        for (size_t i = 0; i < ref.size(); i++) {
            // equivalence of "infinitely often f": no cycle in the complete transition graph satisfies one but never the other
            vector<vector<std::pair<int, u64>>> ed(g.NS); for (int q = 0; q < g.NS; q++) for (int t = 0; t < g.NS; t++) { unsigned k = q | t << g.n; ed[q].push_back({t, (u64)(ref[i].get(k) ? 1 : 0) | (live[ty][i].get(k) ? 2 : 0)}); }
            c.add(C_STATES, g.NS); c.add(C_TRANS, g.NS * g.NS);
            if (badCycle(g.NS, ed, 1, 2) || badCycle(g.NS, ed, 2, 1)) return string(ty ? "liveness assumption " : "liveness guarantee ") + S(i) + " is not preserved\n" + r.out;
            if (!ref[i].none() && !ref[i].all()) c.add(C_NONTRIV);
        }
    }
    c.sample(s.text() + "=> " + r.out);
    return "";
}
Reg ra06("A06", [](const string &t) {
    auto v = all(t, false, a06); bool th = t == "thorough";
    // every function over current and next values in every section
    auto fam = [&](const char *nm, const vector<string> &in, const vector<string> &out, const vector<string> &eT, const vector<string> &sT, const vector<string> &A, const vector<string> &G, const vector<string> &sI) {
        auto p = prod(nm, in, out, {""}, {""}, {""}, {""}, {}, 0, {}, 0); if (!eT.empty()) p->eT = allFunctions(p->sig, eT); if (!sT.empty()) p->sT = allFunctions(p->sig, sT); if (!A.empty()) p->A = allFunctions(p->sig, A); if (!G.empty()) p->G = allFunctions(p->sig, G); if (!sI.empty()) p->sI = allFunctions(p->sig, sI); v.push_back(drv(p, a06)); };
    fam("allGoals", {"a"}, {"b"}, {}, {}, {}, th ? vector<string>{"a", "b", "a'", "b'"} : vector<string>{"a", "a'", "b'"}, {});
    fam("allGoalsB", {"a"}, {"b"}, {}, {}, {}, {"b", "a'", "b'"}, {}); fam("nextGoals", {"a", "e"}, {"b"}, {}, {}, {}, {"a'", "e'", "b'"}, {}); fam("currentGoals", {"a", "e"}, {"b"}, {}, {}, {"a", "e", "b"}, {}, {});
    fam("allAssumptions", {"a"}, {"b", "c"}, {}, {}, {"a", "b'", "c'"}, {}, {}); fam("twoGoals", {"a"}, {"b"}, {}, {}, {"a'", "b'"}, {"b", "b'"}, {});
    fam("allGuarantees", {"a"}, {"b"}, {}, th ? vector<string>{"a", "b", "a'", "b'"} : vector<string>{"b", "a'", "b'"}, {}, {}, {}); fam("allEnv", {"a"}, {"b"}, {"a", "b", "a'"}, {}, {}, {}, {}); fam("allInit", {"a", "e"}, {"b"}, {}, {}, {}, {}, {"a", "e", "b"});
    return v; });
}
