// Bounded, exhaustively enumerated families of GR(1) specifications.
#pragma once
#include "harness.hpp"
namespace mc {
struct Family { string name; virtual i64 size() = 0; virtual Spec get(i64 i) = 0; virtual ~Family() {} };
typedef std::shared_ptr<Family> FamilyPtr;
// Product of per-section choice lists: each choice is a list of formulas.
struct ProdFamily : Family {
    Sig sig; vector<vector<Fml>> eI, sI, eT, sT, A, G; i64 stride = 1;
    i64 size() override { return (i64)eI.size() * sI.size() * eT.size() * sT.size() * A.size() * G.size(); }
    Spec get(i64 i) override {
        Radix r; r.r = {(i64)eI.size(), (i64)sI.size(), (i64)eT.size(), (i64)sT.size(), (i64)A.size(), (i64)G.size()}; r.decode(i);
        Spec s; s.sig = sig; s.envI = eI[r.d[0]]; s.sysI = sI[r.d[1]]; s.envT = eT[r.d[2]]; s.sysT = sT[r.d[3]]; s.A = A[r.d[4]]; s.G = G[r.d[5]];
        return s;
    }
};
// "f ; g" strings -> one choice each
vector<vector<Fml>> choices(const Sig &s, const vector<string> &v);
// all lists of length min..max over the pool (combinations), as choices
vector<vector<Fml>> combos(const Sig &s, const vector<string> &pool, int minLen, int maxLen);
std::shared_ptr<ProdFamily> prod(const string &name, const vector<string> &in, const vector<string> &out,
    const vector<string> &eI, const vector<string> &sI, const vector<string> &eT, const vector<string> &sT,
    vector<string> A, int aMax, vector<string> G, int gMax);
// every Boolean function over the named (possibly primed) variables, as sum-of-products text
vector<vector<Fml>> allFunctions(const Sig &s, const vector<string> &vars);
FamilyPtr initFamily(bool allEnv);
vector<FamilyPtr> realizFamilies(const string &tier);
// Larger than the products: up to 33 guarantees and 17 assumptions; up to 10 variables, hundreds of strategy states
struct ListFamily : Family { vector<std::function<Spec()>> l; i64 size() override { return l.size(); } Spec get(i64 i) override { return l[i](); } };
FamilyPtr manyGoals(bool deep, int step = 1);
FamilyPtr manyVariables(int maxVars, bool liveness = true);
vector<FamilyPtr> withScale(vector<FamilyPtr> v, const string &tier, int vars, int thoroughVars, int step = 1);   // v plus the two
}
