// C01: counterstrategies.  The verdict is the complement-free verdict of the game, and the explicit
// counterstrategy, run against every system behaviour, makes the environment win.
#include "harness.hpp"
#include "family.hpp"
#include "strategy.hpp"
#include <unistd.h>
using namespace mc;
namespace {
struct CN { unsigned val = 0; bool dead = false; vector<int> succ; };
string parseCounter(const string &t, const Sig &sig, std::map<int, CN> &st) {
    std::istringstream is(t); string l; CN *cur = 0; std::map<int, bool> nosucc; CN *pending = 0; (void)pending;
    vector<std::pair<int, string>> todo;
    int curId = -1;
    while (std::getline(is, l)) {
        size_t a = l.find_first_not_of(" \t"); if (a == string::npos) continue; l = l.substr(a);
        if (l.compare(0, 6, "State ") == 0) {
            curId = atoi(l.c_str() + 6); if (st.count(curId)) return "state " + S(curId) + " printed twice"; cur = &st[curId];
            size_t x = l.find('<'), y = l.rfind('>'); if (x == string::npos || y == string::npos) return "no valuation: " + l;
            std::istringstream vs(l.substr(x + 1, y - x - 1)); string it; u64 seen = 0;
            while (std::getline(vs, it, ',')) { size_t b = it.find_first_not_of(' '); if (b == string::npos) continue; it = it.substr(b); size_t c = it.rfind(':'); bool f = false; for (int v = 0; v < sig.n(); v++) if (c != string::npos && it.substr(0, c) == sig.name(v)) { f = true; seen |= 1ull << v; if (it[c + 1] == '1') cur->val |= 1u << v; } if (!f) return "unknown variable: " + l; }
            u64 full = (1ull << sig.n()) - 1, inp = (1ull << sig.ni()) - 1;
            if (seen != full && seen != inp) return "incomplete valuation: " + l;
            if (seen != full) cur->dead = true;
        } else if (l.compare(0, 15, "With successors") == 0) {
            if (!cur) return "successors without state"; if (cur->dead) return "successors of a deadlock state";
            std::istringstream vs(l.substr(l.find(':') + 1)); string it; while (std::getline(vs, it, ',')) { size_t b = it.find_first_not_of(' '); if (b == string::npos) continue; cur->succ.push_back(atoi(it.c_str() + b)); }
        } else if (l.compare(0, 18, "With no successors") == 0) { if (!cur) return "no state"; cur->dead = true; }
        else return "unexpected line: " + l;
    }
    for (auto &p : st) for (int q : p.second.succ) if (!st.count(q)) return "successor " + S(q) + " does not exist";
    return "";
}
string checkCounter(const Game &g, std::map<int, CN> &st, bool rob, i64 *ns, i64 *nt) {
    std::set<unsigned> vals; for (auto &p : st) if (!p.second.dead) vals.insert(p.second.val);
    bool ok = false;
    if (rob) { for (unsigned s : vals) if (g.envI.get(s) && g.sysI.get(s)) ok = true; }
    else for (int x = 0; x < g.NI; x++) if (g.envI.get(g.st(x, 0))) { bool all = true; for (int y = 0; y < g.NO; y++) if (g.sysI.get(g.st(x, y)) && !vals.count(g.st(x, y))) all = false; if (all) ok = true; }
    if (!ok) return "no initial environment move from which every system response is covered";
    std::map<int, int> id; vector<int> num; for (auto &p : st) { id[p.first] = num.size(); num.push_back(p.first); }
    int N = num.size(), m = g.A.size(), n = g.G.size(); vector<vector<std::pair<int, u64>>> e(N); *ns += N;
    for (auto &p : st) if (!p.second.dead) {
        unsigned s = p.second.val; auto &su = p.second.succ; *nt += su.size();
        if (su.empty()) return "state " + S(p.first) + " has no successors although the system is not deadlocked";
        int x = st[su[0]].val & (g.NI - 1);
        if (!g.eT(s, x)) return "the input chosen in state " + S(p.first) + " violates the safety assumptions";
        bool anyDead = false; std::set<int> ys; for (int q : su) { if ((int)(st[q].val & (g.NI - 1)) != x) return "state " + S(p.first) + " has successors for different inputs"; if (st[q].dead) anyDead = true; else { if (!ys.insert(st[q].val >> g.ni).second) return "two successors with the same output in state " + S(p.first); } }
        std::set<int> want; for (int y = 0; y < g.NO; y++) if (g.sT(s, x, y)) want.insert(y);
        if (anyDead) { if (su.size() != 1) return "deadlock state mixed with ordinary successors"; if (!want.empty()) return "state " + S(p.first) + " leads to a deadlock state although the system has a safe response"; }
        else if (ys != want) return "the successors of state " + S(p.first) + " are not exactly the safe responses of the system";
        for (int q : su) if (!st[q].dead) { unsigned k = g.key(s, x, st[q].val >> g.ni); u64 lab = 0; for (int i = 0; i < m; i++) if (g.A[i].get(k)) lab |= 1ull << i; for (int j = 0; j < n; j++) if (g.G[j].get(k)) lab |= 1ull << (m + j); e[id[p.first]].push_back({id[q], lab}); }
    }
    int w = -1;
    for (int i = 0; i < m; i++) if (badCycle(N, e, 0, 1ull << i, &w)) return "a run through state " + S(num[w]) + " never satisfies liveness assumption " + S(i);
    if (badCycle(N, e, ((1ull << n) - 1) << m, 0, &w)) return "a run through state " + S(num[w]) + " satisfies every liveness guarantee infinitely often";
    return "";
}
Driver drv(const FamilyPtr &fam) {
    Driver d; d.id = fam->name; d.size = [=] { return fam->size(); }; d.describe = [=](i64 i) { return fam->get(i).text(); };
    d.body = [=](i64 i, Ctx &c) {
        Spec s = fam->get(i); Game g(s); g.solve(); c.add(C_STATES, g.refStates); c.add(C_TRANS, g.refTrans);
        string f = putFile("s.slugsin", s.text());
        for (int rob = 0; rob < 2; rob++) {
            bool exp = rob ? g.realizableRobotics() : g.realizableClassic();
            vector<string> a{"--counterStrategy"}; if (rob) a.push_back("--sysInitRoboticsSemantics"); a.push_back(f);
            // every other instance writes to a file, the rest to standard output
            string of = scratch() + "/o.txt"; bool useFile = i & 1; if (useFile) { unlink(of.c_str()); a.push_back(of); }
            Run r = run(a); c.add(C_RUNS); c.add(C_TRACES); string err, txt = r.out, fin;
            if (useFile) { txt.clear(); bool have = getFile(of, txt); if (!r.out.empty()) err = "output on stdout although a file name was given"; else if (r.rc == 0 && have == exp) err = have ? "counterstrategy file written for a realizable specification" : "no counterstrategy file written"; }
            getFile(f, fin); if (fin != s.text()) err = "the input file was overwritten";
            if (r.threw || r.rc != 0) err = "rc=" + S(r.rc) + r.what + r.err;
            else if (!err.empty()) ;
            else if (r.verdict() != (exp ? 1 : 0)) err = "verdict differs from the reference: expected " + S(exp) + "\n" + r.err;
            else if (exp) { c.add(C_A); if (!txt.empty()) err = "counterstrategy printed for a realizable specification"; }
            else {
                c.add(C_B); i64 ns = 0, nt = 0; std::map<int, CN> st; err = parseCounter(txt, s.sig, st); if (err.empty()) err = checkCounter(g, st, rob, &ns, &nt);
                c.add(C_STATES, ns); c.add(C_TRANS, nt); if (ns > 1) c.add(C_NONTRIV);
                if (!err.empty()) err += "\n" + txt; else if (i % 1511 == 0) c.sample(s.text() + txt);
            }
            if (!err.empty()) { putFile("s.slugsin", s.text()); vector<string> k(a.begin(), a.end() - 1 - useFile); c.violation(hashKey(join(k, " ") + s.text()), join(k, " ") + (useFile ? " in out" : " in") + "\n" + err + "\n" + s.text()); }
        }
    };
    return d;
}
Reg r("C01", [](const string &t) { vector<Driver> v; for (auto &f : withScale(realizFamilies(t == "thorough" ? "thorough" : "small"), t, 7, 9)) v.push_back(drv(f)); v.push_back(drv(initFamily(t == "thorough"))); return v; });
}
