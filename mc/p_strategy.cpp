// S01..S05: explicit-state strategies
#include "harness.hpp"
#include "family.hpp"
#include "strategy.hpp"
using namespace mc;
namespace {
struct Mode { string opt; bool coop = false, bias = false; };
struct Cfg { vector<Mode> modes; vector<int> rob{0, 1}; vector<int> rec{0}; bool json = false, both = false; };
Driver drv(const FamilyPtr &fam, Cfg cfg, const string &nm) {
    Driver d; d.id = nm + fam->name; d.size = [=] { return fam->size(); }; d.describe = [=](i64 i) { return fam->get(i).text(); };
    d.body = [=](i64 i, Ctx &c) {
        Spec s = fam->get(i); Game g(s); g.solve(); c.add(C_STATES, g.refStates); c.add(C_TRANS, g.refTrans);
        string f = putFile("s.slugsin", s.text()); auto names = preNames(s.sig);
        for (auto &m : cfg.modes) for (int rob : cfg.rob) for (int rec : cfg.rec) {
            vector<string> a{"--explicitStrategy"}; if (!m.opt.empty()) a.push_back(m.opt); if (rob) a.push_back("--sysInitRoboticsSemantics"); if (rec) a.push_back("--simpleRecovery");
            vector<string> aj = a; aj.push_back("--jsonOutput"); aj.push_back(f); a.push_back(f);
            bool useJson = cfg.json;
            Run r = run(useJson ? aj : a); c.add(C_RUNS); c.add(C_TRACES);
            bool exp = rob ? g.realizableRobotics() : g.realizableClassic();
            string where = join(useJson ? aj : a, " "), err;
            if (r.threw || r.rc != 0) err = "rc=" + S(r.rc) + " " + r.what + r.err;
            else if (!m.coop && r.verdict() != (exp ? 1 : 0)) err = "verdict differs from the reference: expected " + S(exp) + "\n" + r.err;
            else if (m.coop && (r.verdict() < 0 || (r.verdict() == 1 && !exp))) err = "cooperative verdict is realizable but the specification is not\n" + r.err;
            else if (m.coop && r.verdict() == 0 && exp && s.A.empty()) {
                // without liveness assumptions and environment dead ends cooperation demands nothing extra
                bool dead = false; for (int q = 0; q < g.NS; q++) { bool any = false; for (int x = 0; x < g.NI; x++) if (g.eT(q, x)) any = true; if (!any) dead = true; }
                if (!dead) err = "cooperative verdict is unrealizable although there is nothing to cooperate about\n" + r.err;
            }
            else if (r.verdict() == 0) { if (!r.out.empty()) err = "output for an unrealizable specification: " + r.out; c.add(C_B); }
            else {
                c.add(C_A); i64 ns = 0, nt = 0;
                Auto au = useJson ? parseJson(r.out, names) : parseText(r.out, names);
                StratOpts o; o.robotics = rob; o.recovery = rec; o.coop = m.coop;
                err = checkStrategy(g, au, o, &ns, &nt);
                if (err.empty() && m.bias) err = checkBias(g, au);
                c.add(C_STATES, ns); c.add(C_TRANS, nt); if (ns > 1 && nt > 1) c.add(C_NONTRIV);
                if (!err.empty()) err += "\n" + r.out;
                else if (i % 1511 == 0) c.sample(where.substr(0, 60) + "\n" + s.text() + r.out);
            }
            if (err.empty() && cfg.both && r.verdict() >= 0) {
                Run r2 = run(aj); c.add(C_RUNS); c.add(C_TRACES);
                if (r2.verdict() != r.verdict() || r2.rc != 0) err = "text and JSON runs disagree on the verdict";
                else if (r.verdict() == 1) {
                    Auto t = parseText(r.out, names), j = parseJson(r2.out, names);
                    if (!t.ok || !j.ok) err = "malformed: " + t.why + j.why + "\n" + r.out + "\n" + r2.out;
                    else if (t.st.size() != j.st.size()) err = "text and JSON strategies have different numbers of states";
                    else for (auto &p : t.st) { auto it = j.st.find(p.first); if (it == j.st.end() || it->second.val != p.second.val || it->second.rank != p.second.rank || it->second.succ != p.second.succ) { err = "text and JSON strategies differ in state " + S(p.first) + "\n" + r.out + "\n" + r2.out; break; } }
                } else if (!r2.out.empty()) err = "JSON output for an unrealizable specification";
            }
            if (!err.empty()) c.violation(hashKey(where.substr(0, where.rfind(' ')) + s.text()), where + "\n" + err + "\n" + s.text());
        }
    };
    return d;
}
vector<Driver> over(const vector<FamilyPtr> &fs, Cfg c, const string &nm = "") { vector<Driver> v; for (auto &f : fs) v.push_back(drv(f, c, nm)); return v; }
Reg s01("S01", [](const string &t) { Cfg c; c.modes = {{""}}; auto f = realizFamilies(t == "thorough" ? "thorough" : "quick"); f.push_back(initFamily(true)); return over(withScale(f, t, 8, 9), c); });
Reg s02("S02", [](const string &t) { Cfg c; c.modes = {{"--fixedPointRecycling"}, {"--biasForAction", false, true}}; return over(withScale(realizFamilies(t == "thorough" ? "thorough" : "small"), t, 7, 9), c); });
Reg s03("S03", [](const string &t) { Cfg c; c.modes = {{"--cooperativeGR1Strategy", true}}; return over(withScale(realizFamilies(t == "thorough" ? "thorough" : "small"), t, 7, 9), c); });
Reg s04("S04", [](const string &t) { Cfg c; c.modes = {{""}, {"--fixedPointRecycling"}, {"--biasForAction"}}; c.rec = {1}; return over(withScale(realizFamilies(t == "thorough" ? "thorough" : "small"), t, 7, 9), c); });
Reg s05("S05", [](const string &t) { Cfg c; c.modes = {{""}, {"--biasForAction"}, {"--fixedPointRecycling"}}; c.rec = {0, 1}; c.both = true; return over(withScale(realizFamilies(t == "thorough" ? "small" : "tiny"), t, 7, 9), c); });
}
