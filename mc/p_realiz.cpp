// R01/R02: the realizability verdict equals the verdict of the explicit-state reference game.
#include "harness.hpp"
#include "family.hpp"
using namespace mc;
static Driver realizDriver(const FamilyPtr &fam, bool robotics) {
    Driver d; d.id = fam->name;
    d.size = [=] { return fam->size(); };
    d.describe = [=](i64 i) { return fam->get(i).text(); };
    d.body = [=](i64 i, Ctx &c) {
        Spec s = fam->get(i); Game g(s); g.solve();
        c.add(C_STATES, g.refStates); c.add(C_TRANS, g.refTrans);
        string f = putFile("s.slugsin", s.text());
        vector<string> a; if (robotics) a.push_back("--sysInitRoboticsSemantics"); a.push_back(f);
        Run r = run(a); c.add(C_RUNS);
        bool exp = robotics ? g.realizableRobotics() : g.realizableClassic();
        int w = 0; for (char x : g.win) w += x; if (w > 0 && w < g.NS) c.add(C_NONTRIV);
        c.add(exp ? C_A : C_B); c.add(C_TRACES);
        if (r.threw || r.rc != 0 || r.verdict() != (exp ? 1 : 0))
            c.violation(hashKey(s.text()), "expected " + string(exp ? "realizable" : "unrealizable") + ", slugs: rc=" + S(r.rc) + (r.threw ? " exception " + r.what : "") + " stderr=" + r.err + "\n" + s.text());
        else if (i % 997 == 0) c.sample(s.text() + " => " + (exp ? "realizable" : "unrealizable"));
    };
    return d;
}
static vector<Driver> mk(const string &tier, bool rob) {
    vector<Driver> v; for (auto &f : withScale(realizFamilies(tier), tier, 8, 9)) v.push_back(realizDriver(f, rob)); v.push_back(realizDriver(initFamily(true), rob)); return v;
}
static Reg r1("R01", [](const string &t) { return mk(t, false); });
static Reg r2("R02", [](const string &t) { return mk(t, true); });
