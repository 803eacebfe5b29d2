// I01 XGETINIT/XMAKETRANS protocol, I02 positions and moves of the shell, I03 completion queries
#include "harness.hpp"
#include "family.hpp"
#include "strategy.hpp"
using namespace mc;
namespace {
typedef vector<vector<string>> Modes;
bool starts(const string &s, const string &p) { return s.compare(0, p.size(), p) == 0; }
vector<string> lines(const string &s) { vector<string> r; std::istringstream i(s); string l; while (std::getline(i, l)) r.push_back(l); return r; }
// One interactive session.  After every command an unknown command delimits the responses.
struct Session { Run r; vector<string> resp; bool complete = false; };
Session session(const vector<string> &mode, const string &file, const vector<string> &cmds) {
    string in; for (size_t i = 0; i < cmds.size(); i++) in += cmds[i] + "\nMARK" + S(i) + "\n"; in += "QUIT\n";
    Session s; vector<string> a = mode; a.push_back("--interactiveStrategy"); for (auto &f : lines(file)) a.push_back(f);   // several files: one per line
    s.r = run(a, in);
    size_t p = 0;
    for (size_t i = 0; i < cmds.size(); i++) {
        string m = "'MARK" + S(i) + "'\n"; size_t e = s.r.out.find(m, p); if (e == string::npos) return s;
        string t = s.r.out.substr(p, e - p); size_t q = t.rfind("> "); if (q == string::npos) return s;
        t = t.substr(0, q); if (starts(t, "> ")) t = t.substr(2); s.resp.push_back(t); p = e + m.size();
    }
    s.complete = !s.r.threw && s.r.rc == 0; return s;
}
string sick(const Session &s) { return s.complete ? "" : "interactive session ended prematurely: rc=" + S(s.r.rc) + " " + s.r.what + s.r.err.substr(0, 300) + " after " + S(s.resp.size()) + " commands; " + (s.r.out.size() > 500 ? s.r.out.substr(s.r.out.size() - 500) : s.r.out); }
string bits(unsigned v, int n) { string r; for (int i = 0; i < n; i++) r += (v >> i & 1) ? '1' : '0'; return r; }
string vals(unsigned v, int n) { string r; for (int i = 0; i < n; i++) r += (v >> i & 1) ? "1\n" : "0\n"; return r; }
string lastLine(const string &t) { auto l = lines(t); for (int i = l.size() - 1; i >= 0; i--) if (!l[i].empty()) return l[i]; return ""; }
// "0110,1" -> position, goal
bool parsePos(const string &l, int n, unsigned &s, int &j) { if ((int)l.size() < n + 2 || l[n] != ',') return false; s = 0; for (int i = 0; i < n; i++) { if (l[i] != '0' && l[i] != '1') return false; if (l[i] == '1') s |= 1u << i; } char *e; j = strtol(l.c_str() + n + 1, &e, 10); return !*e; }
bool winnerReal(const Game &g) { return g.realizableClassic(); }
typedef std::function<string(const Spec &, const vector<string> &, Ctx &)> Body;
Driver drv(const FamilyPtr &fam, const Modes &modes, const Body &b, const string &suffix = "", int timeout = 120) {
    Driver d; d.id = fam->name + suffix; d.timeout = timeout; i64 M = modes.size(); d.size = [=] { return fam->size() * M; };
    auto text = [=](i64 i) { return (modes[i % M].empty() ? string() : "# " + join(modes[i % M], " ") + "\n") + fam->get(i / M).text(); }; d.describe = text;
    d.body = [=](i64 i, Ctx &c) { string e = b(fam->get(i / M), modes[i % M], c); if (!e.empty()) { string t = text(i); c.violation(hashKey(t), e + "\n" + t); } };
    return d;
}
// ---------------------------------------------------------------- I01
struct Node { vector<unsigned> path; vector<int> rnd; };
string i01(const Spec &s, const vector<string> &mode, Ctx &c, bool random, const SetupPtr &u = SetupPtr()) {
    Game g = gameOf(u, s); bool real = winnerReal(g); string f = putFile("s.slugsin", textOf(u, s)); vector<string> outs = s.sig.out;
    if (u && u->files) { int k = 0; for (auto &t : u->files(s)) f += "\n" + putFile("extra" + S(k++), t); } if (u && u->helpers) for (auto &q : u->helpers(s)) outs.push_back(q.first);
    c.add(C_TRACES);
    vector<string> cm = {"XPRINTINPUTS", "XPRINTOUTPUTS", "XGETNOFLIVENESSPROPERTIES", "XGETINIT"};
    Session h = session(mode, f, cm); c.add(C_RUNS); string e = sick(h); if (!e.empty()) return e;
    if (h.r.verdict() != (int)real) return "wrong verdict"; c.add(real ? C_A : C_B);
    if (u && !real) return "";   // variants of the game: only the controller's side is specified
    auto list = [&](const string &t) { vector<string> r; for (auto &l : lines(t)) if (!l.empty()) r.push_back(l); return r; };
    if (list(h.resp[0]) != s.sig.in) return "XPRINTINPUTS: wrong list\n" + h.resp[0]; if (list(h.resp[1]) != outs) return "XPRINTOUTPUTS: wrong list\n" + h.resp[1];
    if (list(h.resp[2]) != vector<string>{S(g.A.size()), S(g.G.size())}) return "XGETNOFLIVENESSPROPERTIES: wrong numbers\n" + h.resp[2];
    bool any = false; for (int q = 0; q < g.NS; q++) if (g.envI.get(q) && g.sysI.get(q) && (bool)g.win[q] == real) any = true;
    unsigned s0 = 0; int j0 = 0; string l = lastLine(h.resp[3]);
    if (!any) { if (l != "ERROR") return "XGETINIT: expected ERROR, got " + l; if (!real) { c.add(C_NONTRIV); return ""; } }
    else { if (!parsePos(l, g.n, s0, j0) || j0 != 0) return "XGETINIT: malformed reply " + l; if (!g.envI.get(s0) || !g.sysI.get(s0)) return "XGETINIT: not an initial position " + l; if ((bool)g.win[s0] != real) return "XGETINIT: not a winning position " + l; }
    string cmd = random ? "XMAKETRANSRANDOM\n" : "XMAKETRANS\n";
    if (!real) { Session q = session(mode, f, {"XGETINIT", cmd + bits(0, g.ni)}); c.add(C_RUNS); if (q.r.threw) return "unexpected exception " + q.r.what; if (q.r.rc == 0 || q.r.err.find("Error") == string::npos) return "XMAKETRANS accepted for an unrealizable specification"; c.add(C_NONTRIV); return ""; }
    int n = g.G.size(); std::map<std::pair<unsigned, int>, Node> nodes; vector<std::pair<unsigned, int>> todo; std::map<std::array<int, 3>, std::set<std::pair<unsigned, int>>> step;
    auto reach = [&](unsigned q, int j, const Node &nd) { if (nodes.count({q, j})) return; nodes[{q, j}] = nd; todo.push_back({q, j}); };
    auto judge = [&](unsigned q, int j, unsigned x, const string &reply, const Node &nd) -> string {
        string at = "XMAKETRANS input " + bits(x, g.ni) + " in " + bits(q, g.n) + " goal " + S(j) + ": "; l = lastLine(reply); c.add(C_TRANS);
        bool err = l == "ERROR", want = !g.eT(q, x); if (!g.win[q] && err) return ""; if (err != want) return at + (want ? "expected ERROR, got " + l : "refused although the input is allowed");
        if (err) return ""; unsigned t; int k; if (!parsePos(l, g.n, t, k)) return at + "malformed reply " + l; if ((t & (g.NI - 1)) != x) return at + "reply has another input: " + l;
        if (!g.win[q]) return g.sT(q, x, t >> g.ni) && g.win[t] ? "" : at + "from a position that is not winning, the reply violates the guarantees or is not winning, too: " + l;
        step[{(int)q, j, (int)x}].insert({t >> g.ni, k}); reach(t, k, nd); return "";
    };
    if (any) {
        reach(s0, 0, Node());
        if (!random) for (size_t a = 0; a < todo.size();) {
            // a whole breadth-first layer in one session; XGETINIT restarts every path
            vector<string> C; struct Q { size_t at; unsigned q; int j; unsigned x; Node nd; }; vector<Q> qs; size_t end = todo.size();
            for (; a < end; a++) for (int x = 0; x < g.NI; x++) { auto p = todo[a]; Node nd = nodes[p]; C.push_back("XGETINIT"); for (unsigned i : nd.path) C.push_back(cmd + bits(i, g.ni)); C.push_back(cmd + bits(x, g.ni)); nd.path.push_back(x); qs.push_back({C.size() - 1, p.first, p.second, (unsigned)x, nd}); }
            Session r = session(mode, f, C); c.add(C_RUNS); if (!(e = sick(r)).empty()) return e;
            for (auto &q : qs) { if (q.nd.path.size() > 1) { unsigned t; int k; if (!parsePos(lastLine(r.resp[q.at - 1]), g.n, t, k) || t != q.q || k != q.j) return "the same commands after XGETINIT lead to another position: " + r.resp[q.at - 1]; } if (!(e = judge(q.q, q.j, q.x, r.resp[q.at], q.nd)).empty()) return e; }
        }
        else for (size_t a = 0; a < todo.size(); a++) for (int x = 0; x < g.NI; x++) {
            auto p = todo[a]; Node nd = nodes[p]; vector<string> C{"XGETINIT"}; for (unsigned i : nd.path) C.push_back(cmd + bits(i, g.ni)); C.push_back(cmd + bits(x, g.ni));
            vector<int> prefix = nd.rnd; vector<int> tailBits; i64 guard = 0;
            for (;;) {
                Choice::path = prefix; Choice::path.insert(Choice::path.end(), tailBits.begin(), tailBits.end()); Choice::pos = 0; Choice::taken.clear(); Choice::active = true;
                Session r = session(mode, f, C); Choice::active = false; c.add(C_RUNS); if (!(e = sick(r)).empty()) return e;
                vector<int> tk = Choice::taken; if (tk.size() < prefix.size()) return "random choices are not reproducible"; if (tk.size() > prefix.size() + 16) return "more than 16 random choices in one step";
                if (nd.path.size()) { unsigned t; int k; if (!parsePos(lastLine(r.resp[C.size() - 2]), g.n, t, k) || t != p.first || k != p.second) return "the same commands and random choices lead to another position"; }
                Node nn = nd; nn.path.push_back(x); nn.rnd = tk; if (!(e = judge(p.first, p.second, x, r.resp.back(), nn)).empty()) return e;
                tailBits.assign(tk.begin() + prefix.size(), tk.end()); while (!tailBits.empty() && tailBits.back() == 1) tailBits.pop_back(); if (tailBits.empty()) break; tailBits.back() = 1; if (++guard > 70000) return "too many random outcomes";
            }
        }
    }
    vector<unsigned> start; if (any) start.push_back(s0);
    if (!random) {
        // SETPOS may enter any position; the goal counter is the one of the play so far
        vector<string> C; struct Q { size_t at; unsigned q; int j; unsigned x; }; vector<Q> qs; std::map<int, vector<unsigned>> via; for (auto &p : nodes) if (!via.count(p.first.second)) via[p.first.second] = p.second.path; if (!any) via[0] = {};
        for (auto &v : via) for (int q = 0; q < g.NS; q++) for (int x = 0; x < g.NI; x++) { if (any) C.push_back("XGETINIT"); for (unsigned i : v.second) C.push_back(cmd + bits(i, g.ni)); C.push_back("SETPOS\n" + vals(q, g.n)); C.push_back(cmd + bits(x, g.ni)); qs.push_back({C.size() - 1, (unsigned)q, v.first, (unsigned)x}); }
        Session r = session(mode, f, C); c.add(C_RUNS); if (!(e = sick(r)).empty()) return e;
        for (auto &q : qs) { size_t before = todo.size(); if (!(e = judge(q.q, q.j, q.x, r.resp[q.at], Node())).empty()) return "after SETPOS: " + e; (void)before; }
        bool closed = true; for (auto &p : step) for (auto &o : p.second) if (!via.count(o.second)) closed = false;
        if (closed) { start.clear(); for (int q = 0; q < g.NS; q++) if (g.win[q]) start.push_back(q); c.add(C_C); }
    }
    StratOpts o; e = checkNondet(g, [&](unsigned q, int j, int x) { vector<std::pair<unsigned, int>> v; auto it = step.find({(int)q, j, x}); if (it != step.end()) v.assign(it->second.begin(), it->second.end()); return v; }, o, n, start, 0, 0);
    c.add(C_STATES, nodes.size()); if (nodes.size() > 1) c.add(C_NONTRIV); if (!nodes.empty()) c.sample(s.text() + h.r.out);
    return e.empty() ? e : "XMAKETRANS: " + e;
}
// ---------------------------------------------------------------- I02 / I03: the relation the shell reveals
struct Rel { bool real = false; int k = 0; vector<TT> r; bool has(int i, unsigned key) const { return r[i].get(key); } };
string list(const vector<int> &v) { if (v.empty()) return "none"; string r; for (size_t i = 0; i < v.size(); i++) r += (i ? ", " : "") + S(v[i]); return r; }
bool parseList(const string &t, vector<int> &v) { v.clear(); if (t == "none") return true; std::istringstream is(t); string w; while (std::getline(is, w, ',')) { char *e; long x = strtol(w.c_str(), &e, 10); if (*e || e == w.c_str()) return false; v.push_back(x); } return !v.empty(); }
string field(const string &t, const string &key) { size_t p = t.find(key); if (p == string::npos) return "?"; p += key.size(); size_t e = t.find('\n', p); string r = t.substr(p, e - p); while (!r.empty() && r[0] == ' ') r = r.substr(1); return r; }
const char *LA = "goal transition for the following liveness assumptions:", *LG = "goal transition for the following liveness guarantees:", *LS = "possible transition in a strategy for the following goals:";
string facts(const Game &g, unsigned key, const string &t) {
    vector<int> a, b; for (size_t i = 0; i < g.A.size(); i++) if (g.A[i].get(key)) a.push_back(i); for (size_t i = 0; i < g.G.size(); i++) if (g.G[i].get(key)) b.push_back(i);
    vector<int> pa, pb; if (!parseList(field(t, LA), pa) || pa != a) return "liveness assumptions: expected " + list(a) + "\n" + t; if (!parseList(field(t, LG), pb) || pb != b) return "liveness guarantees: expected " + list(b) + "\n" + t; return "";
}
string relation(const Spec &s, const Game &g, const vector<string> &mode, const string &f, Rel &R, Ctx &c) {
    R.real = winnerReal(g); R.k = R.real ? g.G.size() : g.A.size(); R.r.assign(R.k, TT(2 * g.n)); vector<string> C; for (unsigned k = 0; k < (1u << (2 * g.n)); k++) C.push_back("CHECKTRANS\n" + vals(k, 2 * g.n));
    Session r = session(mode, f, C); c.add(C_RUNS); string e = sick(r); if (!e.empty()) return e; if (r.r.verdict() != (int)R.real) return "wrong verdict"; c.add(R.real ? C_A : C_B);
    for (unsigned k = 0; k < (1u << (2 * g.n)); k++) {
        const string &t = r.resp[k]; string at = "CHECKTRANS " + bits(k, g.n) + " -> " + bits(k >> g.n, g.n) + ": "; unsigned q = k & (g.NS - 1); c.add(C_TRANS);
        size_t p = t.find("Result:"); if (p == string::npos) return at + "no result\n" + t; string u = t.substr(p);
        auto has = [&](const char *x) { return u.find(x) != string::npos; };
        bool w = (bool)g.win[q] == R.real; if (has("pre-position is winning") != w || has("pre-position is not winning") == w) return at + "wrong statement on the pre-position\n" + t;
        for (int sys = 0; sys < 2; sys++) { bool ok = (sys ? g.sysT : g.envT).get(k); string what = sys ? " the SAFETY GUARANTEES" : " the SAFETY ASSUMPTIONS"; if (has(("SATISFIES" + what).c_str()) != ok || has(("VIOLATES" + what).c_str()) == ok) return at + "wrong statement on" + what + "\n" + t; }
        if (!(e = facts(g, k, u)).empty()) return at + e;
        vector<int> v; if (!parseList(field(u, LS), v)) return at + "malformed strategy list\n" + t; for (int i : v) { if (i < 0 || i >= R.k) return at + "goal out of range\n" + t; R.r[i].set(k, true); }
        if (!v.empty() && !w && !(R.real && g.sysT.get(k) && g.win[k >> g.n])) return at + "strategy transition from a position that is not winning\n" + t;
    }
    return "";
}
string relWins(const Game &g, const Rel &R, Ctx &c) {
    if (R.real) {
        vector<unsigned> st; for (int q = 0; q < g.NS; q++) if (g.win[q]) st.push_back(q); int n = g.G.size(); StratOpts o; i64 a = 0, b = 0;
        string e = checkNondet(g, [&](unsigned q, int j, int x) { vector<std::pair<unsigned, int>> v; for (int y = 0; y < g.NO; y++) { unsigned k = g.key(q, x, y); if (R.has(j, k)) v.push_back({(unsigned)y, g.G[j].get(k) ? (j + 1) % n : j}); } return v; }, o, n, st, &a, &b);
        c.add(C_STATES, a); return e.empty() ? e : "possible strategy transitions: " + e;
    }
    // environment: nodes (position, assumption)
    int m = g.A.size(), n = g.G.size(); auto id = [&](unsigned q, int i) { return (int)q * m + i; }; int N = g.NS * m; vector<vector<std::pair<int, u64>>> E(N); c.add(C_STATES, N);
    for (int q = 0; q < g.NS; q++) if (!g.win[q]) for (int i = 0; i < m; i++) {
        bool some = false; string at = "environment strategy for assumption " + S(i) + " in " + bits(q, g.n) + ": ";
        for (int x = 0; x < g.NI; x++) {
            bool in = R.has(i, g.key(q, x, 0)); for (int y = 0; y < g.NO; y++) if (R.has(i, g.key(q, x, y)) != in) return at + "next input " + bits(x, g.ni) + " depends on the next output"; if (!in) continue; some = true;
            if (!g.eT(q, x)) return at + "next input " + bits(x, g.ni) + " violates the safety assumptions";
            for (int y = 0; y < g.NO; y++) if (g.sT(q, x, y)) { unsigned t = g.st(x, y), k = g.key(q, x, y); if (g.win[t]) return at + "next input " + bits(x, g.ni) + " lets the system reach a winning position"; u64 lab = 0; for (int a = 0; a < m; a++) if (g.A[a].get(k)) lab |= 1ull << a; for (int b = 0; b < n; b++) if (g.G[b].get(k)) lab |= 1ull << (m + b); E[id(q, i)].push_back({id(t, g.A[i].get(k) ? (i + 1) % m : i), lab}); }
        }
        if (!some) return at + "no next input";
    }
    int w = -1; for (int a = 0; a < m; a++) if (badCycle(N, E, 0, 1ull << a, &w)) return "environment strategy: the play can stay away from liveness assumption " + S(a) + " (position " + bits(w / m, g.n) + ")";
    if (badCycle(N, E, ((1ull << n) - 1) << m, 0, &w)) return "environment strategy: all liveness guarantees can be satisfied infinitely often (position " + bits(w / m, g.n) + ")";
    return "";
}
string i02(const Spec &s, const vector<string> &mode, Ctx &c) {
    Game g(s); g.solve(); string f = putFile("s.slugsin", s.text()); Rel R; c.add(C_TRACES);
    string e = relation(s, g, mode, f, R, c); if (e.empty()) e = relWins(g, R, c); if (!e.empty()) return e;
    bool some = false; for (int q = 0; q < g.NS; q++) if (((bool)g.win[q]) == R.real) some = true; if (some) c.add(C_NONTRIV);
    // Moves.  Every position, goal and input; then every goal and input again.  Values other than 0 count as 1, anything that is not a number as 0.
    static const char *one[] = {"1", "7", "-3"}, *zero[] = {"0", "x", "zz1"}; int tw = 0; auto tok = [&](unsigned v, int n, bool odd) { string r; for (int i = 0; i < n; i++) { r += string((v >> i & 1) ? one[odd ? tw % 3 : 0] : zero[odd ? tw / 3 % 3 : 0]) + "\n"; if (odd) tw++; } return r; };
    vector<string> C; struct M { size_t at; unsigned q; int j; unsigned x; int j2; unsigned x2; }; vector<M> ms; bool small = g.n <= 2;
    C.push_back("MOVE"); C.push_back("STARTPOS");
    for (int odd = 0; odd < 2; odd++) for (int q = 0; q < g.NS; q++) for (int j = 0; j < R.k; j++) for (int x = 0; x < g.NI; x++) for (int j2 = 0; j2 < (small && !odd ? R.k : 1); j2++) for (int x2 = 0; x2 < (odd ? 1 : g.NI); x2++) {
        C.push_back("SETPOS\n" + tok(q, g.n, odd)); bool al = false; for (int z = 0; z < g.NI; z++) if (g.eT(q, z)) al = true;
        C.push_back("MOVE\n" + S(j) + (al ? "\n" + tok(x, g.ni, odd) : "")); ms.push_back({C.size() - 1, (unsigned)q, j, (unsigned)x, j2, (unsigned)x2});
    }
    C.push_back("SETPOS\n" + tok(0, g.n, false)); C.push_back("MOVE\n" + S(R.k)); C.push_back("MOVE\n-"); size_t lim = C.size();
    Session r = session(mode, f, C); c.add(C_RUNS); if (!(e = sick(r)).empty()) return e;
    if (r.resp[0].find("Error") == string::npos) return "MOVE without a position accepted";
    if (r.resp[lim - 2].find("too large") == string::npos) return "MOVE with a goal number that does not exist: " + r.resp[lim - 2]; if (r.resp[lim - 1].find("Error reading value") == string::npos) return "MOVE with a malformed goal number: " + r.resp[lim - 1];
    bool any = false; for (int q = 0; q < g.NS; q++) if (g.envI.get(q) && g.sysI.get(q) && (bool)g.win[q] == R.real) any = true;
    if (!any) { if (r.resp[1].find("Error") == string::npos) return "STARTPOS: no error although there is no winning initial position"; }
    else { unsigned q = 0; for (int v = 0; v < g.n; v++) { string t = field(r.resp[1], " - " + s.sig.name(v) + ":"); if (t != "0" && t != "1") return "STARTPOS: malformed\n" + r.resp[1]; if (t == "1") q |= 1u << v; } if (!g.envI.get(q) || !g.sysI.get(q) || (bool)g.win[q] != R.real) return "STARTPOS: not a winning initial position\n" + r.resp[1]; }
    // one move; returns the successor or -1
    auto judge = [&](unsigned q, int j, unsigned x, const string &t, string &why) -> int {
        string at = "MOVE goal " + S(j) + " input " + bits(x, g.ni) + " in " + bits(q, g.n) + ": "; c.add(C_TRANS); c.add(C_C);
        bool al = false; for (int z = 0; z < g.NI; z++) if (g.eT(q, z)) al = true;
        if ((t.find("No move possible") != string::npos) == al) { why = at + "wrong statement on whether a move is possible\n" + t; return -1; } if (!al) return -1;
        if ((t.find("illegal next input") != string::npos) == g.eT(q, x)) { why = at + "wrong statement on whether the input is allowed\n" + t; return -1; }
        bool can = false; for (int y = 0; y < g.NO; y++) if (R.has(j, g.key(q, x, y))) can = true;
        if ((t.find("Input not allowed") != string::npos) == can) { why = at + (can ? "refused" : "accepted") + "\n" + t; return -1; } if (!can) return -1;
        unsigned y = 0; for (int v = 0; v < g.no; v++) { string b = field(t, " - " + s.sig.out[v] + "' ="); if (b != "0" && b != "1") { why = at + "malformed\n" + t; return -1; } if (b == "1") y |= 1u << v; }
        unsigned k = g.key(q, x, y); if (!R.has(j, k)) { why = at + "the output is not part of the strategy\n" + t; return -1; }
        why = facts(g, k, t); vector<int> v, w; for (int i = 0; i < R.k; i++) if (R.has(i, k)) w.push_back(i); if (why.empty() && (!parseList(field(t, LS), v) || v != w)) why = "expected goals " + list(w) + "\n" + t; if (!why.empty()) { why = at + why; return -1; }
        return g.st(x, y);
    };
    vector<string> D; vector<size_t> at2(ms.size(), 0); vector<int> succ(ms.size(), -1);
    for (size_t i = 0; i < ms.size(); i++) {
        auto &m = ms[i]; string why; succ[i] = judge(m.q, m.j, m.x, r.resp[m.at], why); if (!why.empty()) return why;
        unsigned q = succ[i] >= 0 ? succ[i] : m.q; bool al = false; for (int z = 0; z < g.NI; z++) if (g.eT(q, z)) al = true;
        D.push_back(C[m.at - 1]); D.push_back(C[m.at]); D.push_back("MOVE\n" + S(m.j2) + (al ? "\n" + vals(m.x2, g.ni) : "")); at2[i] = D.size() - 1;
    }
    r = session(mode, f, D); c.add(C_RUNS); if (!(e = sick(r)).empty()) return e;
    for (size_t i = 0; i < ms.size(); i++) { auto &m = ms[i]; string why; judge(succ[i] >= 0 ? succ[i] : m.q, m.j2, m.x2, r.resp[at2[i]], why); if (!why.empty()) return "second move (after " + bits(m.q, g.n) + " goal " + S(m.j) + " input " + bits(m.x, g.ni) + "): " + why; }
    c.sample(s.text() + C[ms[0].at - 1] + "\n" + C[ms[0].at] + "\n" + r.resp[1]);
    return "";
}
// ---------------------------------------------------------------- I03
// letters of three nested sets of candidates; the printed assignment must belong to `in`
string judgeLetters(const string &l, int n, const TT &S1, const char *c1, const TT *S2, const char *c2, const TT *S3, const char *c3, const TT &in, unsigned &val) {
    if ((int)l.size() != n) return "malformed reply " + l; val = 0; string want;
    for (int v = 0; v < n; v++) {
        auto cst = [&](const TT &T) { bool a = false, b = false; for (unsigned k = 0; k < (1u << n); k++) if (T.get(k)) { if (k >> v & 1) a = true; else b = true; } return a && b ? -1 : a ? 1 : 0; };
        char ch = 0; int x = cst(S1); if (x >= 0) ch = c1[x]; else if (S2 && (x = cst(*S2)) >= 0) ch = c2[x]; else if (S3 && (x = cst(*S3)) >= 0) ch = c3[x];
        if (ch) { if (l[v] != ch) return string("reply ") + l + ": position " + std::to_string(v) + " should be '" + ch + "'"; if (x) val |= 1u << v; }
        else if (l[v] == '1') val |= 1u << v; else if (l[v] != '0') return string("reply ") + l + ": position " + std::to_string(v) + " should be 0 or 1";
    }
    return in.get(val) ? "" : "reply " + l + " is not one of the permitted assignments";
}
string i03(const Spec &s, const vector<string> &mode, Ctx &c) {
    Game g(s); g.solve(); string f = putFile("s.slugsin", s.text()); Rel R; c.add(C_TRACES);
    string e = relation(s, g, mode, f, R, c); if (!e.empty()) return e;
    int n = g.n; int m = g.A.size(), ng = g.G.size(); vector<string> pats; vector<TT> match; Radix rx; rx.r.assign(n, 3);
    for (i64 i = 0; i < rx.total(); i++) { rx.decode(i); string p; TT t(n, true); for (int v = 0; v < n; v++) { p += "01."[rx.d[v]]; if (rx.d[v] == 0) t = t & !TT::var(n, v); if (rx.d[v] == 1) t = t & TT::var(n, v); } pats.push_back(p); match.push_back(t); }
    vector<string> C; for (auto &p : pats) C.push_back("XCOMPLETEINIT\n" + p);
    struct Q { unsigned q; size_t p; int i, j; }; vector<Q> qs;
    for (int q = 0; q < g.NS; q++) for (size_t p = 0; p < pats.size(); p++) for (int i = 0; i < m; i++) for (int j = 0; j < ng; j++) { qs.push_back({(unsigned)q, p, i, j}); C.push_back("XSTRATEGYTRANSITION\n" + bits(q, n) + pats[p] + "\n" + S(i) + "\n" + S(j)); }
    C.push_back("XSTRATEGYTRANSITION\n" + bits(0, n) + pats.back() + "\n" + S(m) + "\n0"); C.push_back("XSTRATEGYTRANSITION\n" + bits(0, n) + pats.back() + "\n0\n" + S(ng)); C.push_back("XGETNOFLIVENESSPROPERTIES");
    Session r = session(mode, f, C); c.add(C_RUNS); if (!(e = sick(r)).empty()) return e;
    const char *A = "aA", *G = "gG", *W = "sS";
    auto judge = [&](const TT &S1, const TT &S2, const TT &S3, bool nothingForced, const string &reply, unsigned &val, bool &full) -> string {
        vector<string> L; for (auto &l : lines(reply)) if (!l.empty()) L.push_back(l); full = false; if (L.empty()) return "no reply";
        auto fail = [&](const char *w) -> string { return L[0] == w ? "" : string("expected ") + w + ", got " + reply; }; string x;
        if (S1.none()) { c.add(C_C); return fail("FAILASSUMPTIONS"); }
        if (S2.none()) { c.add(C_C); if (!R.real && !nothingForced) return fail("FORCEDNONWINNING"); if (!(x = fail("FAILGUARANTEES")).empty()) return x; if (L.size() < 2) return "assignment missing"; return judgeLetters(L[1], n, S1, A, 0, 0, 0, 0, S1, val); }
        if (S3.none()) { c.add(C_C); if (R.real) return fail("FORCEDNONWINNING"); if (!(x = fail("FAILGUARANTEES")).empty()) return x; if (L.size() < 2) return "assignment missing"; return judgeLetters(L[1], n, S1, A, &S2, W, 0, 0, S2, val); }
        full = true; c.add(C_D); return judgeLetters(L[0], n, S1, A, &S2, R.real ? G : W, &S3, R.real ? W : G, S3, val);
    };
    auto proj = [&](const TT &t) { TT u(n); for (unsigned q = 0; q < (unsigned)g.NS; q++) u.set(q, t.get(q)); return u; };
    TT eI = proj(g.envI), sI = proj(g.sysI), win(n); for (int q = 0; q < g.NS; q++) win.set(q, (bool)g.win[q] == R.real);
    for (size_t p = 0; p < pats.size(); p++) { unsigned v; bool full; TT S1 = eI & match[p], S2 = S1 & (R.real ? sI : win), S3 = S2 & (R.real ? win : sI); c.add(C_TRANS); e = judge(S1, S2, S3, pats[p].find_first_not_of('.') == string::npos, r.resp[p], v, full); if (!e.empty()) return "XCOMPLETEINIT " + pats[p] + ": " + e; }
    for (size_t k = 0; k < qs.size(); k++) {
        auto &q = qs[k]; const string &t = r.resp[pats.size() + k]; TT S1(n), S2(n), S3(n), live(n); c.add(C_TRANS);
        for (unsigned z = 0; z < (unsigned)g.NS; z++) { unsigned key = q.q | z << n; S1.set(z, match[q.p].get(z) && g.envT.get(key)); S2.set(z, S1.get(z) && (R.real ? g.sysT.get(key) : R.has(q.i, key))); S3.set(z, S2.get(z) && (R.real ? R.has(q.j, key) : g.sysT.get(key))); bool ok = false; for (int x = 0; x < g.NI; x++) for (int y = 0; y < g.NO; y++) if (g.eT(z, x) && g.sT(z, x, y)) ok = true; live.set(z, ok); }
        string at = "XSTRATEGYTRANSITION " + bits(q.q, n) + pats[q.p] + " " + S(q.i) + " " + S(q.j) + ": "; unsigned v; bool full; e = judge(S1, S2, S3, false, t, v, full); if (!e.empty()) return at + e;
        vector<string> L; for (auto &l : lines(t)) if (!l.empty()) L.push_back(l);
        if (full) { if (!(S3 & live).none() && !live.get(v)) return at + "leads into a dead end although another completion does not: " + t; unsigned key = q.q | v << n; string i2 = S(g.A[q.i].get(key) ? (q.i + 1) % m : q.i), j2 = S(g.G[q.j].get(key) ? (q.j + 1) % ng : q.j); if (L.size() != 3 || L[1] != i2 || L[2] != j2) return at + "expected goal numbers " + i2 + " and " + j2 + ": " + t; }
    }
    for (int d = 0; d < 2; d++) if (lastLine(r.resp[C.size() - 3 + d]) != "ERROR") return "XSTRATEGYTRANSITION with a goal number that does not exist: " + r.resp[C.size() - 3 + d];
    c.add(C_NONTRIV); c.sample(s.text() + C[pats.size()] + "\n" + r.resp[pats.size()]);
    return "";
}
vector<FamilyPtr> fams(const string &tier, int depth) {
    bool th = tier == "thorough"; vector<FamilyPtr> v; int two = th ? 2 : 1;
    v.push_back(prod("1in1out", {"a"}, {"b"}, {"", "a"}, {"", "b", "!a"}, {"", "a'", "b->a'", "!b", "a'<->!a"}, {"", "b'", "b'<->a'", "b->!b'", "!(a'&b')", "b->0"}, {"a'", "a&a'", "b", "a&b&a'&b'"}, depth >= 1 ? 1 : two, {"b'", "a'&b'", "!b'", "!a&!b&a'&b'", "a&b&a'&b'"}, depth >= 1 ? 1 : two));
    v.push_back(prod("live2", {"a"}, {"b"}, {""}, {"", "!b"}, {"", "b->a'"}, {"", "b->!b'"}, {"a'", "!a'", "b"}, 2, {"b'", "!b'", "b&a'", "a'&b'"}, 2));
    v.push_back(prod("2in1out", {"a", "e"}, {"b"}, {""}, {"", "b<->a"}, {"", "!(a'&e')", "b->e'"}, {"", "b'->a'", "(a'->!b)&(e'->b')"}, {"a'", "!a'&b"}, two, {"b'", "!b'&e"}, two));
    v.push_back(prod("1in2out", {"a"}, {"b", "c"}, {"", "!a"}, {"", "!b&!c"}, {"", "b->a'"}, {"", "!(b'&c')", "(b'<->!b)|(c'<->c)", "b->!c'"}, {"a'"}, 1, {"b'&a", "c'", "b<->c'"}, th ? 2 : 1));
    v.push_back(prod("noin", {}, {"b", "c"}, {""}, {"", "b"}, {"", "b", "b->c"}, {"", "b'<->!b", "c->!c'", "b->0"}, {"b'"}, 1, {"b'", "b&c'"}, 2));
    v.push_back(prod("noout", {"a", "e"}, {}, {"", "a"}, {"", "e"}, {"", "a'<->!a", "!a'|!e'"}, {"", "a'|e'"}, {"a'", "!e'"}, 2, {"a'", "e"}, 2));
    return v;
}
const Modes PLAIN = {{}}, ALL = {{}, {"--fixedPointRecycling"}, {"--biasForAction"}};
Modes modes(const string &t) { (void)t; return ALL; }
bool TH(const string &t) { return t == "thorough"; }
Body I01(bool random) { return [random](const Spec &s, const vector<string> &m, Ctx &c) { return i01(s, m, c, random); }; }
Reg r1("I01", [](const string &t) { vector<Driver> v; for (auto &f : fams(t, 0)) v.push_back(drv(f, ALL, I01(false)));
    for (auto &f : withScale(realizFamilies(TH(t) ? "thorough" : "small"), t, 5, 6, 1)) { v.push_back(drv(f, PLAIN, I01(false), "-plain")); }
    for (auto &f : fams(t, TH(t) ? 0 : 1)) v.push_back(drv(f, PLAIN, I01(true), "-random"));
    return v; });
Reg r2("I02", [](const string &t) { vector<Driver> v; for (auto &f : fams(t, 0)) v.push_back(drv(f, ALL, i02)); for (auto &f : realizFamilies(TH(t) ? "small" : "tiny")) v.push_back(drv(f, PLAIN, i02, "-plain")); return v; });
Reg r3("I03", [](const string &t) { vector<Driver> v; for (auto &f : fams(t, 0)) v.push_back(drv(f, ALL, i03));
    // three variables of one kind with chains of implications between them: a choice for one forces the others
    v.push_back(drv(prod("chainIn", {"a", "e", "f"}, {"b"}, {"", "(a|e)&(!e|f)"}, {"", "b&!f", "(a^e)->b"}, {"(a'|e')&(!e'|f')", "(a'<->!e')&(e'<->f')", "b->((a'|e')&(e'->f'))"}, {"", "a'->!b'", "(f'->0)", "!b|!f'"}, {"f'"}, 1, {"b'"}, TH(t) ? 1 : 0), PLAIN, i03));
    v.push_back(drv(prod("chainOut", {}, {"b", "c", "d"}, {""}, {"", "(b|c)&(!c|d)", "b&!d", "!b&(c^d)"}, {"", "!b|!d", "b->0"}, {"(b'|c')&(!c'|d')", "(b'<->!c')&(c'<->d')", "(b->c')&(b'|c')&(!c'|d')"}, {"d'"}, 1, {"b'", "c'&d'"}, 1), PLAIN, i03)); for (auto &f : realizFamilies(TH(t) ? "small" : "tiny")) if (TH(t) || (f->name != "1in1out" && f->name != "1in2out" && f->name != "2in1out")) v.push_back(drv(f, PLAIN, i03, "-plain")); return v; });
}
namespace mc {
Driver protocolDriver(const FamilyPtr &fam, bool random, SetupPtr u) {
    Driver d; d.id = fam->name + u->name + "-shell"; d.timeout = 120; d.size = [=] { return fam->size(); }; d.describe = [=](i64 i) { return textOf(u, fam->get(i)); };
    d.body = [=](i64 i, Ctx &c) { Spec s = fam->get(i); string e = i01(s, u->opts, c, random, u); if (!e.empty()) { string t = textOf(u, s); c.violation(hashKey("shell" + t), e + "\n" + t); } };
    return d;
}
}
