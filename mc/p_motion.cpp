// N01: synthesis with a non-deterministic motion abstraction (--nonDeterministicMotion)
#include "harness.hpp"
#include "family.hpp"
#include <BF.h>
using namespace mc;
namespace {
// A specification over inputs, motion state bits, motion controller outputs and other outputs; formulas use truth
// tables over 2*(ni+nm+nc+no) bits: current values low, next values high, in this order.
struct MSpec { vector<string> in, mot, con, oth; Spec s; int region = -1; };   // s.sig.out = mot, con, oth
string sec(const char *n, const vector<string> &v) { string r = string("[") + n + "]\n"; for (auto &x : v) r += x + "\n"; return r + "\n"; }
string text(const MSpec &m) {
    string r = m.s.text(); size_t b = r.find("[OUTPUT]"), e = r.find("\n[", b); string rest = e == string::npos ? "" : r.substr(e);
    if (m.region >= 0) rest = "\n[ABSTRACTION_REGION_BDDS]\nR " + scratch() + "/region.bdd\n" + rest;
    return sec("INPUT", m.in) + sec("MOTION STATE OUTPUT", m.mot) + sec("MOTION CONTROLLER OUTPUT", m.con) + sec("OTHER OUTPUT", m.oth) + rest;
}
// robot: bit index (m | u << nm | m' << (nm+nc)); file variables: motion state reversed, controller reversed, next motion state reversed
string robotFile(const MSpec &q, const TT &robot) {
    BFManager mgr; int nm = q.mot.size(), nc = q.con.size(), n = 2 * nm + nc; vector<BF> v; vector<string> names; for (int i = 0; i < n; i++) { v.push_back(mgr.newVariable()); names.push_back("v" + S(i)); }
    auto fileVar = [&](int bit) { return bit < nm ? nm - 1 - bit : bit < nm + nc ? nm + (nc - 1 - (bit - nm)) : nm + nc + (nm - 1 - (bit - nm - nc)); };
    BF b = mgr.constantFalse(); for (unsigned k = 0; k < (1u << n); k++) if (robot.get(k)) { BF t = mgr.constantTrue(); for (int i = 0; i < n; i++) t &= (k >> i & 1) ? v[fileVar(i)] : !v[fileVar(i)]; b |= t; }
    string p = scratch() + "/robot.bdd"; mgr.writeBDDToFile(p.c_str(), "", b, v, names); return p;
}
// The region is a set of motion states; file variables: motion state bits reversed
void regionFile(const MSpec &q) {
    BFManager mgr; int nm = q.mot.size(); vector<BF> v; vector<string> names; for (int i = 0; i < nm; i++) { v.push_back(mgr.newVariable()); names.push_back("v" + S(i)); }
    BF b = mgr.constantFalse(); for (int k = 0; k < (1 << nm); k++) if (q.region >> k & 1) { BF t = mgr.constantTrue(); for (int i = 0; i < nm; i++) t &= (k >> i & 1) ? v[nm - 1 - i] : !v[nm - 1 - i]; b |= t; }
    mgr.writeBDDToFile((scratch() + "/region.bdd").c_str(), "", b, v, names);
}
// "R" and "R'" in a formula stand for the region: the text keeps the name, the truth table its meaning
Fml regionFml(const Sig &g, const vector<string> &mot, int region, const string &infix) {
    Sig ext = g; ext.out.push_back("R"); Fml f; f.txt = fml(ext, infix).txt; string t;
    for (size_t p = 0; p < infix.size(); p++) {
        bool name = isalnum(infix[p]), prev = p && isalnum(infix[p - 1]), next = p + 1 < infix.size() && isalnum(infix[p + 1]); if (infix[p] != 'R' || prev || next || !name) { t += infix[p]; continue; }
        bool prime = p + 1 < infix.size() && infix[p + 1] == '\''; string d = "(0"; for (int k = 0; k < (1 << mot.size()); k++) if (region >> k & 1) { d += "|(1"; for (size_t i = 0; i < mot.size(); i++) d += string("&") + (k >> i & 1 ? "" : "!") + mot[i] + (prime ? "'" : ""); d += ")"; } t += d + ")"; if (prime) p++;
    }
    f.tt = fml(g, t).tt; return f;
}
struct MGame {
    MSpec q; TT robot, envI, sysI, envT, sysT; vector<TT> A, G; int ni, nm, nc, no, n; vector<char> win; i64 states = 0, trans = 0;
    MGame(const MSpec &q, const TT &robot) : q(q), robot(robot) {
        ni = q.in.size(); nm = q.mot.size(); nc = q.con.size(); no = q.oth.size(); n = ni + nm + nc + no; Game g(q.s); envI = g.envI; sysI = g.sysI; envT = g.envT; sysT = g.sysT; A = q.s.A.empty() ? vector<TT>() : g.A; G = g.G;
    }
    unsigned full(unsigned x, unsigned m, unsigned u, unsigned o) const { return x | m << ni | u << (ni + nm) | o << (ni + nm + nc); }
    void solve() {
        int NX = 1 << ni, NM = 1 << nm, NC = 1 << nc, NO = 1 << no, NS = NX * NM * NO, a = A.size() + 1, g = G.size();   // last assumption: the robot moves when its action allows it
        auto rob = [&](unsigned m, unsigned u, unsigned m2) { return robot.get(m | u << nm | m2 << (nm + nc)); };
        auto id = [&](unsigned x, unsigned m, unsigned o) { return x + NX * (m + NM * o); };
        vector<char> owner, prio; vector<vector<int>> succ; std::map<vector<int>, int> ids; vector<vector<int>> nodes;
        auto node = [&](vector<int> k) { auto it = ids.find(k); if (it != ids.end()) return it->second; int v = nodes.size(); ids[k] = v; nodes.push_back(k); owner.push_back(0); prio.push_back(0); succ.push_back({}); return v; };
        // kinds: 0 environment picks the input; 1 controller picks action and other outputs; 2 the robot's motion is resolved; 3 safety violated
        for (int s = 0; s < NS; s++) node({0, s, 0, 0, 0});
        int lost = node({3}); owner[lost] = 0;
        for (size_t v = 0; v < nodes.size(); v++) {
            vector<int> k = nodes[v]; vector<int> nx;
            if (k[0] == 3) continue;
            int s = k[1], x = s % NX, m = s / NX % NM, o = s / NX / NM;
            if (k[0] == 0) { owner[v] = 1; prio[v] = k[4]; for (int x2 = 0; x2 < NX; x2++) if (envT.get(full(x, m, 0, o) | full(x2, 0, 0, 0) << n)) nx.push_back(node({1, s, k[2], k[3], x2})); }
            else if (k[0] == 1) { owner[v] = 0; for (int u = 0; u < NC; u++) { bool any = false; for (int m2 = 0; m2 < NM; m2++) any |= rob(m, u, m2); if (any) for (int o2 = 0; o2 < NO; o2++) nx.push_back(node({2, s, k[2], k[3], k[4], u, o2})); } }
            else {
                owner[v] = 1; int x2 = k[4], u = k[5], o2 = k[6]; bool canMove = false; for (int m2 = 0; m2 < NM; m2++) if (m2 != m && rob(m, u, m2)) canMove = true;
                for (int m2 = 0; m2 < NM; m2++) if (rob(m, u, m2)) {
                    unsigned t = full(x, m, 0, o) | full(x2, m2, u, o2) << n; if (!sysT.get(t)) { nx.push_back(lost); continue; }
                    int i = k[2], j = k[3], p = 0; bool holds = i < a - 1 ? A[i].get(t) : !canMove || m2 != m;
                    if (holds) { i = (i + 1) % a; if (i == 0) p = 1; } if (G[j].get(t)) { j = (j + 1) % g; if (j == 0) p = 2; }
                    nx.push_back(node({0, id(x2, m2, o2), i, j, p}));
                }
            }
            succ[v] = nx; trans += nx.size();
        }
        states += nodes.size(); vector<char> r = zielonka(owner, prio, succ); win.assign(NS, 0); for (int s = 0; s < NS; s++) win[s] = r[s];
    }
    // initial input -> some initial motion state and outputs (robotics: all of them, guarantees ignored)
    bool realizable(bool robotics) const {
        int NX = 1 << ni, NM = 1 << nm, NO = 1 << no;
        for (int x = 0; x < NX; x++) if (envI.get(full(x, 0, 0, 0))) {
            bool any = false, all = true; for (int m = 0; m < NM; m++) for (int o = 0; o < NO; o++) { bool w = win[x + NX * (m + NM * o)]; if (!w) all = false; if (w && sysI.get(full(x, m, 0, o))) any = true; }
            if (robotics ? !all : !any) return false;
        }
        return true;
    }
};
// ---- N02: the interactive shell on top of a robot abstraction
vector<string> nonEmpty(const string &s) { vector<string> r; std::istringstream i(s); string l; while (std::getline(i, l)) if (!l.empty()) r.push_back(l); return r; }
string posBits(unsigned v, int n) { string r; for (int i = 0; i < n; i++) r += (v >> i & 1) ? '1' : '0'; return r; }
string posVals(unsigned v, int n) { string r; for (int i = 0; i < n; i++) r += (v >> i & 1) ? "1\n" : "0\n"; return r; }
bool shell(const string &f, const string &rf, const vector<string> &cmds, vector<string> &resp, string &err, Run &r) {
    string in; for (size_t i = 0; i < cmds.size(); i++) in += cmds[i] + "\nMARK" + S(i) + "\n"; in += "QUIT\n"; r = run({"--interactiveStrategy", "--nonDeterministicMotion", f, rf}, in); size_t p = 0; resp.clear();
    for (size_t i = 0; i < cmds.size(); i++) { string m = "'MARK" + S(i) + "'\n"; size_t e = r.out.find(m, p); if (e == string::npos) { err = "session ended prematurely: rc=" + S(r.rc) + " " + r.what + r.err; return false; } string t = r.out.substr(p, e - p); size_t q = t.rfind("> "); t = q == string::npos ? t : t.substr(0, q); auto l = nonEmpty(t); resp.push_back(l.empty() ? "" : l.back()); p = e + m.size(); }
    if (r.threw || r.rc) { err = "rc=" + S(r.rc) + " " + r.what + r.err; return false; } return true;
}
string n02(const MSpec &q, const TT &robot, const string &f, const string &rf, Ctx &c) {
    MGame g(q, robot); g.solve(); c.add(C_STATES, g.states); c.add(C_TRANS, g.trans); bool real = g.realizable(false); c.add(real ? C_A : C_B); vector<string> resp; string err; Run r; int n = g.n, NXV = 1 << g.ni, NM = 1 << g.nm, NC = 1 << g.nc, NO = 1 << g.no, na = g.A.size() + 1, ng = g.G.size();
    if (!shell(f, rf, {"XGETINIT"}, resp, err, r)) return err; c.add(C_RUNS); if (r.verdict() != real) return "wrong verdict"; if (!real) return "";
    auto strip = [&](string l) { while (l.compare(0, 2, "> ") == 0) l = l.substr(2); return l; };
    auto parse = [&](string l, unsigned &s, int &j) { l = strip(l); if ((int)l.size() < n + 2 || l[n] != ',') return false; s = 0; for (int i = 0; i < n; i++) { if (l[i] != '0' && l[i] != '1') return false; if (l[i] == '1') s |= 1u << i; } char *e; j = strtol(l.c_str() + n + 1, &e, 10); return !*e && j >= 0 && j < ng; };
    auto comp = [&](unsigned s, int &x, int &m, int &u, int &o) { x = s & (NXV - 1); m = s >> g.ni & (NM - 1); u = s >> (g.ni + g.nm) & (NC - 1); o = s >> (g.ni + g.nm + g.nc) & (NO - 1); };
    auto win = [&](unsigned s) { int x, m, u, o; comp(s, x, m, u, o); return (bool)g.win[x + NXV * (m + NM * o)]; };
    bool any = false; for (unsigned s = 0; s < (1u << n); s++) if (g.envI.get(s) && g.sysI.get(s) && win(s)) any = true;
    unsigned s0 = 0; int j0 = 0; if (!any) return strip(resp[0]) == "ERROR" ? "" : "XGETINIT: expected ERROR, got " + resp[0];
    if (!parse(resp[0], s0, j0) || j0) return "XGETINIT: malformed reply " + resp[0]; if (!g.envI.get(s0) || !g.sysI.get(s0) || !win(s0)) return "XGETINIT: not a winning initial position: " + resp[0];
    int N = (1 << n) * ng; vector<vector<std::pair<int, u64>>> edges(N); std::set<std::array<int, 3>> done; std::map<int, vector<int>> via;
    auto judge = [&](unsigned s, int j, int x2, const string &reply, unsigned &t, int &k) -> string {
        string at = "XMAKETRANS " + posBits(x2, g.ni) + " in " + posBits(s, n) + " goal " + S(j) + ": ", l = strip(reply); int x, m, u, o; comp(s, x, m, u, o); bool ok = g.envT.get(g.full(x, m, 0, o) | (unsigned)x2 << n); t = s; k = -1; c.add(C_TRACES);
        if (!ok) return l == "ERROR" ? "" : at + "expected ERROR, got " + l; if (!parse(reply, t, k)) return at + "malformed reply " + l; int y, m2, u2, o2; comp(t, y, m2, u2, o2); if (y != x2) return at + "another input in " + l;
        auto rob = [&](int m3) { return robot.get(m | u2 << g.nm | m3 << (g.nm + g.nc)); }; if (!rob(m2)) return at + "the robot can not make that motion: " + l;
        bool can = false; for (int m3 = 0; m3 < NM; m3++) if (rob(m3)) { unsigned z = g.full(x, m, 0, o) | g.full(x2, m3, u2, o2) << n; if (m3 != m) can = true; if (!g.sysT.get(z)) return at + "the action may lead to a violation of the guarantees: " + l; if (!g.win[x2 + NXV * (m3 + NM * o2)]) return at + "the action may lead to a position that is not winning: " + l; }
        unsigned z = g.full(x, m, 0, o) | g.full(x2, m2, u2, o2) << n; u64 lab = 0; for (int i = 0; i < na - 1; i++) if (g.A[i].get(z)) lab |= 1ull << i; if (!can || m2 != m) lab |= 1ull << (na - 1); for (int i = 0; i < ng; i++) if (g.G[i].get(z)) lab |= 1ull << (32 + i);
        if (done.insert({(int)s, j, x2}).second) edges[s * ng + j].push_back({(int)(t * ng + k), lab}); return "";
    };
    struct Node { unsigned s; int j; vector<int> path; }; vector<Node> todo{{s0, 0, {}}}; std::set<std::pair<unsigned, int>> seen{{s0, 0}}; via[0] = {};
    for (size_t a = 0; a < todo.size();) {
        vector<string> C; vector<std::pair<size_t, int>> qs; vector<size_t> at; size_t end = todo.size(), from = a;
        for (; a < end; a++) for (int x = 0; x < NXV; x++) { C.push_back("XGETINIT"); for (int i : todo[a].path) C.push_back("XMAKETRANS\n" + posBits(i, g.ni)); C.push_back("XMAKETRANS\n" + posBits(x, g.ni)); qs.push_back({a, x}); at.push_back(C.size() - 1); }
        (void)from; if (!shell(f, rf, C, resp, err, r)) return err; c.add(C_RUNS);
        for (size_t i = 0; i < qs.size(); i++) { Node nd = todo[qs[i].first]; unsigned t; int k; err = judge(nd.s, nd.j, qs[i].second, resp[at[i]], t, k); if (!err.empty()) return err; if (k >= 0 && seen.insert({t, k}).second) { nd.path.push_back(qs[i].second); nd.s = t; nd.j = k; if (!via.count(k)) via[k] = nd.path; todo.push_back(nd); } }
    }
    // the robot moved differently than the shell chose: SETPOS enters the real position
    vector<string> C; vector<std::array<int, 3>> qs; vector<size_t> at; for (auto &v : via) for (unsigned s = 0; s < (1u << n); s++) if (win(s)) for (int x = 0; x < NXV; x++) { C.push_back("XGETINIT"); for (int i : v.second) C.push_back("XMAKETRANS\n" + posBits(i, g.ni)); C.push_back("SETPOS\n" + posVals(s, n)); C.push_back("XMAKETRANS\n" + posBits(x, g.ni)); qs.push_back({(int)s, v.first, x}); at.push_back(C.size() - 1); }
    if (!shell(f, rf, C, resp, err, r)) return err; c.add(C_RUNS); for (size_t i = 0; i < qs.size(); i++) { unsigned t; int k; err = judge(qs[i][0], qs[i][1], qs[i][2], resp[at[i]], t, k); if (!err.empty()) return "after SETPOS: " + err; }
    for (int k = 0; k < ng; k++) if (badCycle(N, edges, (1ull << na) - 1, 1ull << (32 + k))) return "XMAKETRANS: a play satisfies the assumptions but not guarantee " + S(k);
    if (seen.size() > 1) c.add(C_NONTRIV); return "";
}
enum Kind { VERDICT, SHELL };
struct Setup {
    string name; vector<string> in, mot, con, oth, eI{""}, sI{""}, eT{""}, sT{""}, A{"a'"}; int aMax = 1; vector<string> G; int gMax = 2;
    vector<TT> robots;                                     // empty = every relation
    vector<string> regI, regT, regG; bool regions = false; // formulas over R, for every region
};
Driver drv(const Setup &u, Kind kind) {
    vector<string> out = u.mot; out.insert(out.end(), u.con.begin(), u.con.end()); out.insert(out.end(), u.oth.begin(), u.oth.end());
    auto fam = prod(u.name, u.in, out, u.eI, u.sI, u.eT, u.sT, u.A, u.aMax, u.G, u.gMax); int rb = 2 * u.mot.size() + u.con.size(); i64 nr = u.robots.empty() ? 1ll << (1 << rb) : (i64)u.robots.size();
    i64 nreg = u.regions ? 1ll << (1 << u.mot.size()) : 1, ni = u.regI.size() + 1, nt = u.regT.size() + 1, ng = u.regG.size() + 1, nx = u.regions ? nreg * ni * nt * ng : 1;
    auto get = [=](i64 i, TT &r) {
        MSpec q; q.in = u.in; q.mot = u.mot; q.con = u.con; q.oth = u.oth; i64 k = i % nr; i /= nr; q.s = fam->get(i / nx); i %= nx; if (u.robots.empty()) { r = TT(rb); for (int b = 0; b < (1 << rb); b++) r.set(b, k >> b & 1); } else r = u.robots[k];
        if (u.regions) { Radix x; x.r = {nreg, ni, nt, ng}; x.decode(i); q.region = x.d[0]; auto put = [&](vector<Fml> &to, const vector<string> &from, i64 z) { if (z) to.push_back(regionFml(fam->sig, u.mot, q.region, from[z - 1])); }; put(q.s.sysI, u.regI, x.d[1]); put(q.s.sysT, u.regT, x.d[2]); put(q.s.G, u.regG, x.d[3]); }
        return q;
    };
    auto rel = [=](const MSpec &q, const TT &r) { string s = "robot (state action next): "; for (int b = 0; b < (1 << rb); b++) if (r.get(b)) s += "(" + S(b & ((1 << u.mot.size()) - 1)) + " " + S(b >> u.mot.size() & ((1 << u.con.size()) - 1)) + " " + S(b >> (u.mot.size() + u.con.size())) + ") "; if (q.region >= 0) s += "region " + S(q.region); return s + "\n"; };
    Driver d; d.id = u.name + (kind == SHELL ? "-shell" : ""); d.size = [=] { return fam->size() * nr * nx; }; d.describe = [=](i64 i) { TT r; MSpec q = get(i, r); return rel(q, r) + text(q); };
    d.body = [=](i64 i, Ctx &c) {
        TT r; MSpec q = get(i, r); string t = text(q), f = putFile("s.slugsin", t), rf = robotFile(q, r); if (q.region >= 0) { regionFile(q); size_t p; while ((p = t.find(scratch())) != string::npos) t.replace(p, scratch().size(), "."); }
        if (kind == SHELL) { string err = n02(q, r, f, rf, c); if (!err.empty()) c.violation(hashKey(rel(q, r) + t), err + "\n" + rel(q, r) + t); return; }
        MGame g(q, r); g.solve(); c.add(C_STATES, g.states); c.add(C_TRANS, g.trans);
        for (int rob = 0; rob < 2; rob++) {
            vector<string> a{"--nonDeterministicMotion"}; if (rob) a.push_back("--sysInitRoboticsSemantics"); a.push_back(f); a.push_back(rf);
            Run x = run(a); c.add(C_RUNS); c.add(C_TRACES); bool exp = g.realizable(rob); c.add(exp ? C_A : C_B); string err;
            if (x.threw || x.rc != 0) err = "rc=" + S(x.rc) + " " + x.what + x.err; else if (x.verdict() != exp) err = string("reported ") + (exp ? "unrealizable" : "realizable");
            if (!err.empty()) c.violation(hashKey(S(rob) + rel(q, r) + t), join(a, " ") + "\n" + err + "\n" + rel(q, r) + t);
        }
    };
    return d;
}
// Robots on a ring of four cells with one action bit.  Action 1 moves: per cell forward, forward or stay, forward or two
// cells, or not available; action 0 stays, drifts backward or stay, or is not available in cell 3.
vector<TT> rings(int nmenu, int n0) {
    vector<TT> r; int tot = 1; for (int i = 0; i < 4; i++) tot *= nmenu;
    for (int z = 0; z < n0; z++) for (int k = 0; k < tot; k++) { TT t(5); int q = k; for (int m = 0; m < 4; m++) { int menu = q % nmenu; q /= nmenu; auto add = [&](int u, int m2) { t.set(m | u << 2 | (m2 & 3) << 3, true); };
        if (menu == 0) add(1, m + 1); else if (menu == 1) { add(1, m + 1); add(1, m); } else if (menu == 2) { add(1, m + 1); add(1, m + 2); }
        if (z == 0) add(0, m); else if (z == 1) { add(0, m); add(0, m + 3); } else if (m != 3) add(0, m); } r.push_back(t); }
    return r;
}
// Every robot with one state bit and two action bits in which only the listed actions may be available
vector<TT> twoBits(const vector<int> &acts) {
    vector<TT> r; int k = 4 * acts.size(); for (int z = 0; z < (1 << k); z++) { TT t(4); int q = z; for (int u : acts) for (int m = 0; m < 2; m++) for (int m2 = 0; m2 < 2; m2++) { t.set(m | u << 1 | m2 << 3, q & 1); q >>= 1; } r.push_back(t); } return r;
}
vector<Setup> setups(bool th, bool shell) {
    vector<Setup> v; Setup s; bool lim = shell && !th;
    s.name = "robots"; s.in = {"a"}; s.mot = {"m"}; s.con = {"u"}; s.eI = {"", "a"}; s.sI = {"", "!m"}; s.eT = {"", "a'|!m"}; s.sT = {"", "m->(u'<->a')", "!(m'&a')"}; s.G = {"m'", "!m'"}; if (lim) { s.eI = {"a"}; s.G = {"m'&a'", "!m'"}; } v.push_back(s);
    s = Setup(); s.name = "robotsOther"; s.in = {"a"}; s.mot = {"m"}; s.con = {"u"}; s.oth = {"o"}; s.sI = {"", "!o"}; s.eT = {"", "o->a'"}; s.sT = {"o'<->!o", "m'->o'", "!(o'&a')"}; s.G = {"m'&o'", "!m'"}; if (lim) { s.sI = {"!o"}; s.eT = {"o->a'"}; s.A = {}; } v.push_back(s);
    s = Setup(); s.name = "noInput"; s.mot = {"m"}; s.con = {"u"}; s.oth = {"o"}; s.sI = {"", "o", "m"}; s.sT = {"", "o'<->!o", "m'->o", "(o'&u')->!m'"}; s.A = {"m^o"}; s.G = {"m'&o'", "!m'", "m&!u'"}; if (lim) { s.sI = {"o"}; s.A = {}; s.sT = {"", "m'->o"}; } v.push_back(s);
    s = Setup(); s.name = "twoInputs"; s.in = {"a", "b"}; s.mot = {"m"}; s.con = {"u"}; s.eT = {"", "!(a'&b')"}; s.sT = {"a'->u'", "b'->(m'|u')"}; s.A = {"a'", "b'"}; s.aMax = th ? 2 : 1; s.G = {"m'", "!m'&!u'"}; if (lim) { s.eT = {"!(a'&b')"}; s.G = {"m'"}; } v.push_back(s);
    s = Setup(); s.name = "ring"; s.in = {"a"}; s.mot = {"m", "n"}; s.con = {"u"}; s.sI = {"", "!m&n"}; s.eT = {"", "(m&n)->a'"}; s.sT = {"", "a'->!(m'&n')", "(m&!n)->u'"}; s.G = {"m'&n'", "!m'&n'", "!m'&!n'&a"}; s.gMax = th ? 3 : 2; s.robots = rings(th ? 4 : 3, th ? 3 : 2); if (lim) { s.sI = {""}; s.eT = {""}; s.sT = {"a'->!(m'&n')"}; s.A = {}; s.G = {"m'&n'", "!m'&n'"}; s.robots = rings(3, 3); } v.push_back(s);
    s = Setup(); s.name = "twoActions"; s.in = {"a"}; s.mot = {"m"}; s.con = {"u", "w"}; s.sT = {"", "a'->!w'"}; s.A = {}; s.G = {"m'&a'", "!m'"}; s.robots = twoBits(th && !shell ? vector<int>{0, 1, 2, 3} : lim ? vector<int>{1, 2} : vector<int>{0, 1, 2}); if (th) s.A = {"a'"}; v.push_back(s);
    s = Setup(); s.name = "region"; s.in = {"a"}; s.mot = {"m", "n"}; s.con = {"u"}; s.A = {}; s.G = {"m'^n'"}; s.gMax = 1; s.regions = true; s.regI = {"R"}; s.regT = {"a'->!R'", "R->(R'|u')"}; s.regG = {"R'", "!R'&a"}; s.robots = rings(2, 1); if (lim) { s.G = {}; s.robots = rings(2, 1); s.robots.resize(6); } v.push_back(s);
    return v;
}
Reg n01("N01", [](const string &tier) { vector<Driver> v; for (auto &s : setups(tier == "thorough", false)) v.push_back(drv(s, VERDICT)); return v; });
Reg n02r("N02", [](const string &tier) { vector<Driver> v; for (auto &s : setups(tier == "thorough", true)) { Driver d = drv(s, SHELL); d.chunk = 8; v.push_back(d); } return v; });
}
