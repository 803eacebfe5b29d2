// R03 options that only select what is extracted leave the verdict alone
// R04 dynamic BDD reordering and garbage collection (whenever they strike) change nothing
#include "harness.hpp"
#include "family.hpp"
#include "strategy.hpp"
using namespace mc;
namespace {
bool hasOpt(const vector<string> &a, const char *o) { return std::find(a.begin(), a.end(), string(o)) != a.end(); }
// ---------------------------------------------------------------- R03
const vector<vector<string>> &sets() {
    static vector<vector<string>> r; if (!r.empty()) return r;
    static const char *o[] = {"--explicitStrategy", "--symbolicStrategy", "--simpleSymbolicStrategy", "--jsonOutput", "--sysInitRoboticsSemantics", "--biasForAction", "--counterStrategy", "--simpleRecovery", "--fixedPointRecycling", "--interactiveStrategy", "--analyzeInitialPositions", "--restrictToReachableStates", "--computeInterestingRunOfTheSystem", "--computeAbstractWinningTrace", "--extractExplicitPermissiveStrategy", "--analyzeAssumptions", "--analyzeInterleaving", "--computeWeakenedSafetyAssumptions"};
    Run none = run({"--biasForAction", "--fixedPointRecycling", "--counterStrategy"}); (void)none;
    for (auto &s : subsets(18, 5)) { bool sorted = true; for (size_t i = 1; i < s.size(); i++) if (s[i] < s[i - 1]) sorted = false; if (!sorted) continue; vector<string> a; for (int i : s) a.push_back(o[i]); Run q = run(a); if (q.err.find("option combination") == string::npos) r.push_back(a); }
    return r;
}
vector<Driver> r03(const string &tier) {
    vector<Driver> v; auto fams = withScale(realizFamilies(tier == "thorough" ? "quick" : "small"), tier, 6, 8, 4);
    for (auto &f : fams) {
        Driver d; d.id = f->name; i64 step = tier == "thorough" ? std::max<i64>(1, f->size() / 20000) : std::max<i64>(1, f->size() / 2500) | 1; d.size = [=] { return (f->size() + step - 1) / step; }; d.chunk = 2; d.timeout = 120;
        d.describe = [=](i64 i) { return f->get(i * step).text(); };
        d.body = [=](i64 i, Ctx &c) {
            Spec s = f->get(i * step); Game g(s); g.solve(); bool cl = g.realizableClassic(), ro = g.realizableRobotics(); string in = putFile("s.slugsin", s.text()), out = scratch() + "/o"; c.add(cl ? C_A : C_B); if (cl != ro) c.add(C_NONTRIV); c.add(C_STATES, g.refStates); c.add(C_TRANS, g.refTrans);
            for (auto &k : sets()) {
                auto a = k; a.push_back(in); if (hasOpt(k, "--symbolicStrategy") || hasOpt(k, "--simpleSymbolicStrategy")) a.push_back(out);
                Run r = run(a, "QUIT\n"); c.add(C_RUNS); c.add(C_TRACES); string e; int want = hasOpt(k, "--sysInitRoboticsSemantics") ? ro : cl;
                if (r.threw || r.rc) e = "run failed: " + r.what + r.err.substr(0, 300);
                else if (r.err.find("RESULT") == string::npos) { bool report = false; for (auto &x : k) if (x.compare(0, 9, "--analyze") == 0 || x.compare(0, 9, "--compute") == 0) report = true; if (!report) e = "no verdict"; }
                else if (r.verdict() != want) e = "verdict " + S(r.verdict()) + ", expected " + S(want);
                if (!e.empty()) { c.violation(hashKey(join(k, " ") + s.text()), join(k, " ") + ": " + e + "\n" + s.text()); return; }
            }
        };
        v.push_back(d);
    }
    return v;
}
Reg a1("R03", r03);
// ---------------------------------------------------------------- R04
struct Sched { long first, step; };
vector<Driver> r04(const string &tier) {
    bool T = tier == "thorough"; vector<Sched> sc{{12, 3}, {14, 1}, {25, 10}, {40, 40}}; if (T) for (long f : {12, 13, 18, 33, 55, 80}) for (long st : {1, 2, 5, 13, 29}) sc.push_back({f, st});
    vector<Driver> v; i64 M = sc.size(), want = T ? 1500 : 260;
    for (const char *id : {"S01", "S02", "S03", "S04", "S06", "S07", "C01", "A01", "A02", "A03", "A04", "A05", "A06", "T01", "T02", "I01", "I02", "I03"}) for (auto &b : driversOf(id, "quick")) {
        i64 N = b.size(); if (!N) continue; i64 step = std::max<i64>(1, N / want); if (step > 1) step |= 1; i64 K = (N + step - 1) / step; Driver d; d.id = string(id) + "-" + b.id; d.timeout = b.timeout * 4; d.chunk = 2; d.size = [=] { return K * M; };
        d.describe = [=](i64 i) { return "# reordering from " + S(sc[i % M].first) + " nodes on, then after every " + S(sc[i % M].step) + " new nodes\n" + (b.describe ? b.describe(i / M * step) : ""); };
        d.body = [=](i64 i, Ctx &c) { g_reorderFirst = sc[i % M].first; g_reorderStep = sc[i % M].step; g_reorderings = 0; b.body(i / M * step, c); c.add(C_REORD, g_reorderings); if (g_reorderings) c.add(C_NONTRIV); g_reorderFirst = g_reorderStep = 0; };
        v.push_back(d);
    }
    return v;
}
Reg a2("R04", r04);
}
