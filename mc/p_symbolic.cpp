// S06: symbolic strategies (both file formats), S07: permissive strategies
#include "harness.hpp"
#include "family.hpp"
#include "strategy.hpp"
#include <unistd.h>
using namespace mc;
namespace {
typedef StratMode Mode;
vector<unsigned> initialWinning(const Game &g) {
    vector<unsigned> r; for (int s = 0; s < g.NS; s++) if (g.win[s] && g.envI.get(s) && g.sysI.get(s)) r.push_back(s); return r;
}
// returns "" or an error; checks one symbolic strategy file
string checkFile(const Game &g, const vector<std::pair<string, string>> &nm2, const string &text, bool encoded, const StratOpts &o, const vector<unsigned> &start, i64 *ns, i64 *nt) {
    Dddmp d; d.parse(text); if (!d.ok) return "malformed symbolic strategy: " + d.why;
    int ranks = g.G.size() + (o.coop ? g.A.size() : 0); if (d.goals != ranks) return "header says " + S(d.goals) + " goals";
    // variables
    vector<int> pre, post, cb, cbp; int strat = -1; u64 seen = 0;
    for (int v = 0; v < g.n; v++) for (int pr = 0; pr < 2; pr++) { string nm = (encoded && v < g.ni ? "in_" : "") + (pr ? nm2[v].second : nm2[v].first); if (!d.byName.count(nm)) return "variable " + nm + " not listed in the header"; int k = d.byName[nm]; (pr ? post : pre).push_back(k); seen |= 1ull << k; }
    for (int b = 0; d.byName.count("_jx_b" + S(b)); b++) { cb.push_back(d.byName["_jx_b" + S(b)]); seen |= 1ull << cb.back(); if (encoded) { string p = "_jx_b" + S(b) + "'"; if (!d.byName.count(p)) return "no post counter bit"; cbp.push_back(d.byName[p]); seen |= 1ull << cbp.back(); } }
    if (!encoded) { if (!d.byName.count("strat_type")) return "no strat_type"; strat = d.byName["strat_type"]; seen |= 1ull << strat; }
    u64 aux = 0; for (auto &p : d.byName) if (p.first.size() > 7 && p.first.substr(p.first.size() - 7) == "__trans") aux |= 1ull << p.second;   // scratch variables of the cost computation
    if ((seen | aux) != (1ull << d.names.size()) - 1) return "extra variables in the header";
    for (auto &q : d.nodes) if (!q.second.term && (aux >> q.second.id & 1)) return "the strategy depends on scratch variables";
    if ((1 << cb.size()) < ranks) return "too few counter bits";
    auto ass = [&](unsigned s, int x, int y, int j) { u64 a = 0; for (int v = 0; v < g.n; v++) { if (s >> v & 1) a |= 1ull << pre[v]; unsigned t = g.st(x, y); if (t >> v & 1) a |= 1ull << post[v]; } for (size_t b = 0; b < cb.size(); b++) if (j >> b & 1) a |= 1ull << cb[b]; return a; };
    string err;
    Choices ch = [&](unsigned s, int j, int x) {
        vector<std::pair<unsigned, int>> r;
        for (int y = 0; y < g.NO; y++) {
            u64 a = ass(s, x, y, j); unsigned k = g.key(s, x, y); bool goal = j < (int)g.G.size() ? g.G[j].get(k) : g.A[j - g.G.size()].get(k);
            if (encoded) {
                int cnt = 0;
                for (int j2 = 0; j2 < (1 << cb.size()); j2++) { u64 b = a; for (size_t q = 0; q < cbp.size(); q++) if (j2 >> q & 1) b |= 1ull << cbp[q]; if (d.eval(b)) { cnt++; r.push_back({(unsigned)y, j2}); int ex = goal ? (j + 1) % ranks : j; if (j2 != ex) err = "goal counter goes from " + S(j) + " to " + S(j2) + " where " + S(ex) + " is expected"; } }
                if (cnt > 1) err = "goal counter is not deterministic";
            } else {
                bool s0 = d.eval(a), s1 = d.eval(a | 1ull << strat);
                if (s1 != (s0 && goal)) err = "strat_type=1 does not mark exactly the permitted transitions that satisfy the current goal";
                if (s0) r.push_back({(unsigned)y, goal ? (j + 1) % ranks : j});
            }
        }
        return r;
    };
    string e;
    if (!o.coop) e = checkNondet(g, ch, o, ranks, start, ns, nt);
    if (e.empty()) e = err;
    for (int hi = 0; hi < 2 && e.empty(); hi++) { Auto a = resolve(g, ch, o, start, hi); e = checkStrategy(g, a, o, ns, nt); if (!e.empty()) e = "(resolved to the " + string(hi ? "highest" : "lowest") + " permitted output) " + e; }
    return e.empty() ? err : e;
}
Driver sym(const FamilyPtr &fam, vector<Mode> modes, vector<int> recs, SetupPtr u = SetupPtr()) {
    Driver d; d.id = fam->name + (u ? u->name : ""); d.size = [=] { return fam->size(); }; d.describe = [=](i64 i) { return textOf(u, fam->get(i)); };
    d.body = [=](i64 i, Ctx &c) {
        Spec s = fam->get(i); Game g = gameOf(u, s); string st_ = textOf(u, s); c.add(C_STATES, g.refStates); c.add(C_TRANS, g.refTrans);
        string f = putFile("s.slugsin", st_), of = scratch() + "/o.bdd";
        vector<std::pair<string, string>> nm2; for (auto &q : preNames(s.sig)) nm2.push_back({q, q + "'"}); if (u && u->helpers) for (auto &q : u->helpers(s)) nm2.push_back(q);
        vector<string> extra; if (u && u->files) { int k = 0; for (auto &t : u->files(s)) extra.push_back(putFile("extra" + S(k++), t)); }
        for (auto &m : modes) for (int rob = 0; rob < 2; rob++) for (int rec : recs) for (int enc = 0; enc < 2; enc++) {
            bool exp = rob ? g.realizableRobotics() : g.realizableClassic();
            vector<string> a{enc ? "--simpleSymbolicStrategy" : "--symbolicStrategy"}; if (!m.opt.empty()) a.push_back(m.opt); if (rob) a.push_back("--sysInitRoboticsSemantics"); if (rec) a.push_back("--simpleRecovery"); if (u) a.insert(a.end(), u->opts.begin(), u->opts.end());
            a.push_back(f); a.insert(a.end(), extra.begin(), extra.end()); a.push_back(of); unlink(of.c_str());
            Run r = run(a); c.add(C_RUNS); c.add(C_TRACES); string err, txt; bool have = getFile(of, txt);
            if (r.threw || r.rc != 0) err = "rc=" + S(r.rc) + r.what + r.err;
            else if (!m.coop && r.verdict() != (exp ? 1 : 0)) err = "verdict differs from the reference\n" + r.err;
            else if (m.coop && (r.verdict() < 0 || (r.verdict() == 1 && !exp))) err = "cooperative verdict wrong\n" + r.err;
            else if (have != (r.verdict() == 1)) err = have ? "strategy file written although unrealizable" : "no strategy file written";
            else if (have) { i64 ns = 0, nt = 0; StratOpts o; o.robotics = rob; o.recovery = rec; o.coop = m.coop; vector<unsigned> start = initialWinning(g);
                if (m.coop) {   // the cooperative winning region is smaller: take the initial positions of the explicit cooperative strategy
                    vector<string> b = a; b[0] = "--explicitStrategy"; b.pop_back(); Run e = run(b); c.add(C_RUNS); Auto au = parseText(e.out, preNames(s.sig)); std::set<unsigned> st; for (auto &q : au.st) if (q.second.rank == 0 && g.envI.get(q.second.val) && g.sysI.get(q.second.val)) st.insert(q.second.val); start.assign(st.begin(), st.end());
                }
                err = checkFile(g, nm2, txt, enc, o, start, &ns, &nt); c.add(C_A); c.add(C_STATES, ns); c.add(C_TRANS, nt); if (ns > 1 && nt > 1) c.add(C_NONTRIV); if (!err.empty()) err += "\n" + txt; else if (i % 1511 == 0 && enc) c.sample(st_ + txt.substr(0, 700)); }
            else c.add(C_B);
            if (!err.empty()) { a.resize(a.size() - 2 - extra.size()); c.violation(hashKey(join(a, " ") + st_), join(a, " ") + "\n" + err + "\n" + st_); }
        }
    };
    return d;
}
// ---- permissive explicit strategies
struct Perm { std::map<int, Auto::S> st; string why; };
Perm parsePerm(const string &t, const vector<string> &names) {
    Perm p; std::istringstream is(t); string l; Auto::S *cur = 0; int line = 0;
    while (std::getline(is, l)) {
        if (l.empty()) { cur = 0; continue; }
        if (l.compare(0, 6, "State ") == 0) { int id, rk; if (sscanf(l.c_str(), "State %d with rank %d", &id, &rk) != 2 || p.st.count(id)) { p.why = "bad line " + l; return p; } cur = &p.st[id]; cur->rank = rk; cur->val = 0; line = 0; continue; }
        if (!cur) { p.why = "unexpected line " + l; return p; }
        if (line++ == 0) {
            std::istringstream vs(l); string it; u64 seen = 0;
            while (std::getline(vs, it, ',')) { size_t a = it.find_first_not_of(' '); it = it.substr(a); size_t c = it.rfind(':'); bool f = false; for (size_t k = 0; k < names.size(); k++) if (c != string::npos && it.substr(0, c) == names[k]) { f = true; seen |= 1ull << k; if (it[c + 1] == '1') cur->val |= 1u << k; } if (!f) { p.why = "bad valuation " + l; return p; } }
            if (seen != (1ull << names.size()) - 1) { p.why = "incomplete valuation " + l; return p; }
        } else cur->succ.push_back(atoi(l.c_str()));
    }
    for (auto &q : p.st) for (int x : q.second.succ) if (!p.st.count(x)) p.why = "successor " + S(x) + " does not exist";
    return p;
}
Driver perm(const FamilyPtr &fam, vector<string> modes, SetupPtr u = SetupPtr()) {
    Driver d; d.id = fam->name + (u ? u->name : ""); d.size = [=] { return fam->size(); }; d.describe = [=](i64 i) { return textOf(u, fam->get(i)); };
    d.body = [=](i64 i, Ctx &c) {
        Spec s = fam->get(i); Game g = gameOf(u, s); string st_ = textOf(u, s); c.add(C_STATES, g.refStates); c.add(C_TRANS, g.refTrans);
        string f = putFile("s.slugsin", st_); auto names = preNames(s.sig); if (u && u->helpers) for (auto &q : u->helpers(s)) names.push_back(q.first);
        vector<string> extra; if (u && u->files) { int k = 0; for (auto &t : u->files(s)) extra.push_back(putFile("extra" + S(k++), t)); }
        bool safety = s.A.empty() && s.G.empty() && !(u && u->helpers);
        for (auto &m : modes) for (int rob = 0; rob < 2; rob++) {
            bool exp = rob ? g.realizableRobotics() : g.realizableClassic();
            vector<string> a{"--extractExplicitPermissiveStrategy"}; if (!m.empty()) a.push_back(m); if (rob) a.push_back("--sysInitRoboticsSemantics"); if (u) a.insert(a.end(), u->opts.begin(), u->opts.end());
            a.push_back(f); a.insert(a.end(), extra.begin(), extra.end()); Run r = run(a); c.add(C_RUNS); c.add(C_TRACES); string err;
            if (r.threw || r.rc != 0) err = "rc=" + S(r.rc) + r.what + r.err;
            else if (r.verdict() != (exp ? 1 : 0)) err = "verdict differs from the reference\n" + r.err;
            else if (!exp) { c.add(C_B); if (!r.out.empty()) err = "output for an unrealizable specification"; }
            else {
                c.add(C_A); Perm p = parsePerm(r.out, names); err = p.why;
                std::map<std::pair<unsigned, int>, int> ix; for (auto &q : p.st) { if (ix.count({q.second.val, q.second.rank})) err = "two states with the same valuation and goal"; ix[{q.second.val, q.second.rank}] = q.first; }
                StratOpts o; o.robotics = rob; i64 ns = 0, nt = 0; vector<unsigned> start;
                for (int q = 0; q < g.NS; q++) { if (g.win[q]) { start.push_back(q); if (!ix.count({(unsigned)q, 0}) && err.empty()) err = "winning position " + valStr(g, q) + " is missing"; } }
                Choices ch = [&](unsigned v, int j, int x) { vector<std::pair<unsigned, int>> r2; auto it = ix.find({v, j}); if (it != ix.end()) for (int t : p.st[it->second].succ) { auto &q = p.st[t]; if ((int)(q.val & (g.NI - 1)) == x) r2.push_back({q.val >> g.ni, q.rank}); } return r2; };
                if (err.empty()) err = checkNondet(g, ch, o, g.G.size(), start, &ns, &nt);
                if (err.empty()) for (auto &q : p.st) for (int t : q.second.succ) if (!g.eT(q.second.val, p.st[t].val & (g.NI - 1))) err = "state " + S(q.first) + " has a successor for an excluded input";
                // maximality for safety specifications
                if (err.empty() && safety) for (int q = 0; q < g.NS && err.empty(); q++) if (g.win[q]) for (int x = 0; x < g.NI; x++) if (g.eT(q, x)) for (int y = 0; y < g.NO; y++) if (g.sT(q, x, y) && g.win[g.st(x, y)]) { bool fnd = false; for (auto &z : ch(q, 0, x)) if ((int)z.first == y) fnd = true; if (!fnd) err = "the safe choice " + valStr(g, q) + "->" + valStr(g, g.st(x, y)) + " is not permitted by the permissive strategy of a safety specification"; c.add(C_C); }
                // contains the ordinary strategy
                if (err.empty()) {
                    vector<string> b = a; b[0] = "--explicitStrategy"; Run e = run(b); c.add(C_RUNS); Auto au = parseText(e.out, names); if (!au.ok) err = "ordinary strategy: " + au.why;
                    for (auto &q : au.st) for (int t : q.second.succ) { bool fnd = false; auto &w = au.st[t]; for (auto &z : ch(q.second.val, q.second.rank, w.val & (g.NI - 1))) if (z.first == (w.val >> g.ni) && z.second == w.rank) fnd = true; if (!fnd && ix.count({q.second.val, q.second.rank}) && err.empty()) err = "choice " + valStr(g, q.second.val) + "->" + valStr(g, w.val) + " (goal " + S(q.second.rank) + ") of the ordinary strategy is not contained in the permissive one"; }
                }
                c.add(C_STATES, ns); c.add(C_TRANS, nt); if (ns > 1 && nt > 1) c.add(C_NONTRIV);
                if (!err.empty()) err += "\n" + r.out; else if (i % 1511 == 0) c.sample(st_ + r.out);
            }
            if (!err.empty()) { a.resize(a.size() - 1 - extra.size()); c.violation(hashKey(join(a, " ") + st_), join(a, " ") + "\n" + err + "\n" + st_); }
        }
    };
    return d;
}
Reg s06("S06", [](const string &t) { vector<Driver> v; vector<Mode> m{{""}, {"--fixedPointRecycling"}, {"--biasForAction"}, {"--cooperativeGR1Strategy", true}}; for (auto &f : withScale(realizFamilies(t == "thorough" ? "small" : "tiny"), t, 5, 7, 2)) v.push_back(sym(f, m, t == "thorough" ? vector<int>{0, 1} : vector<int>{0})); if (t != "thorough") for (auto &f : realizFamilies("tiny")) { v.push_back(sym(f, {{""}}, {1})); v.back().id += "-recovery"; } return v; });
Reg s07("S07", [](const string &t) { vector<Driver> v; for (auto &f : withScale(realizFamilies(t == "thorough" ? "thorough" : "small"), t, 6, 8, 2)) { bool big = f->name == "fullSys" || f->name == "fullEnv"; v.push_back(perm(f, big && t != "thorough" ? vector<string>{"", "--fixedPointRecycling"} : vector<string>{"", "--fixedPointRecycling", "--biasForAction"})); } return v; });
}
namespace mc {
Driver symbolicDriver(const FamilyPtr &fam, vector<StratMode> modes, vector<int> recs, SetupPtr u) { return sym(fam, modes, recs, u); }
Driver permissiveDriver(const FamilyPtr &fam, vector<string> modes, SetupPtr u) { return perm(fam, modes, u); }
}
