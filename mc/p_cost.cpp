// D01: strategies for action and waiting costs
#include "harness.hpp"
#include "family.hpp"
#include "strategy.hpp"
#include <limits>
#include <functional>
using namespace mc;
namespace {
// helper variables of the strategy (they start with '_') are additional memory: keep them in the high bits
Auto parseWithHelpers(const string &out, const vector<string> &names, bool json) {
    vector<string> all = names; if (json) {
        size_t v = out.find("\"variables\""), b = out.find('[', v), e = out.find(']', v);
        if (v != string::npos && e != string::npos) for (size_t p = out.find("\"_", b); p < e; p = out.find("\"_", p + 2)) all.push_back(out.substr(p + 1, out.find('"', p + 1) - p - 1));
        auto r = parseJson(out, all); for (auto &p : r.st) p.second.val &= (1u << names.size()) - 1; return r;
    }
    size_t a = out.find('<'), b = a == string::npos ? a : out.find('>', a);
    if (a != string::npos && b != string::npos) { std::istringstream is(out.substr(a + 1, b - a - 1)); string it; while (std::getline(is, it, ',')) { while (!it.empty() && it[0] == ' ') it.erase(0, 1); if (it[0] == '_') all.push_back(it.substr(0, it.rfind(':'))); } }
    Auto r = parseText(out, all); for (auto &p : r.st) p.second.val &= (1u << names.size()) - 1; return r;
}

// A cost file: weights of waiting and acting, tie break, and action costs of transitions (formulas in infix)
struct Cost { string head; vector<std::pair<double, string>> c; };
double costOf(const vector<std::pair<double, TT>> &c, unsigned k) { for (auto &p : c) if (p.second.get(k)) return p.first; return 0; }
// Specifications without liveness assumptions: from every strategy state, the worst-case action cost until the current goal is the least possible one
string checkCost(const Game &g, const Auto &a, const vector<std::pair<double, TT>> &c, bool robotics, i64 *states) {
    const double INF = std::numeric_limits<double>::infinity(); std::map<int, int> id; vector<const Auto::S *> st; vector<int> num; for (auto &p : a.st) { id[p.first] = st.size(); st.push_back(&p.second); num.push_back(p.first); }
    vector<vector<double>> V;
    for (size_t j = 0; j < g.G.size(); j++) {
        vector<double> v(g.NS, INF);
        for (bool ch = true; ch;) {
            ch = false; vector<double> nv(g.NS);
            for (int s = 0; s < g.NS; s++) { double m = 0; for (int x = 0; x < g.NI; x++) if (g.eT(s, x)) { double b = INF; for (int y = 0; y < g.NO; y++) if (g.sT(s, x, y)) { unsigned k = g.key(s, x, y); int t = g.st(x, y); b = std::min(b, costOf(c, k) + (g.G[j].get(k) && g.win[t] ? 0 : v[t])); } m = std::max(m, b); } nv[s] = m; (*states)++; if (nv[s] != v[s]) ch = true; }
            v = nv;
        }
        V.push_back(v);
    }
    vector<double> W(st.size(), -1);
    std::function<double(int)> dfs = [&](int v) { if (W[v] >= 0) return W[v]; double m = 0; int j = st[v]->rank; for (int q : st[v]->succ) { int w = id.at(q); unsigned t = st[w]->val, k = g.key(st[v]->val, t & (g.NI - 1), t >> g.ni); m = std::max(m, costOf(c, k) + (g.G[j].get(k) ? 0 : dfs(w))); } return W[v] = m; };
    for (size_t v = 0; v < st.size(); v++) { double w = dfs(v), o = V[st[v]->rank][st[v]->val]; if (w != o) return "from state " + S(num[v]) + " the strategy can have action cost " + std::to_string(w) + " until goal " + S(st[v]->rank) + " although " + std::to_string(o) + " can be ensured"; }
    if (!robotics) for (int x = 0; x < g.NI; x++) if (g.envI.get(x)) {
        double o = INF, w = INF; for (int y = 0; y < g.NO; y++) { int s = g.st(x, y); if (!g.sysI.get(s) || !g.win[s]) continue; o = std::min(o, V[0][s]); for (size_t v = 0; v < st.size(); v++) if ((int)st[v]->val == s && st[v]->rank == 0) w = std::min(w, W[v]); }
        if (w != o) return "the initial states for initial input " + S(x) + " have action cost " + std::to_string(w) + " instead of " + std::to_string(o);
    }
    return "";
}
string costText(const Sig &sig, const Cost &k, vector<std::pair<double, TT>> *ct) { string txt = k.head + "\n"; for (auto &e : k.c) { Fml m = fml(sig, e.second); std::ostringstream o; o << e.first << " " << m.txt << "\n"; txt += o.str(); if (ct) ct->push_back({e.first, m.tt}); } return txt; }
// the same strategies in the other formats: the helper variables are additional outputs
SetupPtr setup(const string &name, const Cost &k) {
    auto u = std::make_shared<Setup>(); u->name = name; u->opts = {"--twoDimensionalCost"}; u->text = [](const Spec &s) { return s.text(); };
    u->files = [=](const Spec &s) { return vector<string>{costText(s.sig, k, 0)}; };
    u->helpers = [](const Spec &s) { vector<std::pair<string, string>> r; size_t m = Game(s).A.size(); for (size_t i = 1; i < m + 1; i <<= 1) r.push_back({"_l_a_c_v_" + S(i), "_l_a_c_v_" + S(i) + "'"}); r.push_back({"_is_infty_cost_Pre", "_is_infty_cost_Post"}); return r; };
    auto h = u->helpers; u->game = [=](const Spec &s) { Game g(s); g.solve(); return extended(g, h(s).size()); };
    return u;
}
Driver drv(const FamilyPtr &fam, const string &nm, const vector<Cost> &costs) {
    Driver d; d.id = nm + fam->name; d.size = [=] { return fam->size(); }; d.describe = [=](i64 i) { return fam->get(i).text(); };
    d.body = [=](i64 i, Ctx &c) {
        Spec s = fam->get(i); Game g(s); g.solve(); c.add(C_STATES, g.refStates); c.add(C_TRANS, g.refTrans); string f = putFile("s.slugsin", s.text()); auto names = preNames(s.sig);
        for (size_t k = 0; k < costs.size(); k++) for (int var = 0; var < (k ? 2 : 3); var++) {
            int rob = var == 2 ? (i >> 1) & 1 : var, rec = var == 2, json = rec && (i & 1);   // one run per specification with recovery, every other one in JSON
            vector<std::pair<double, TT>> ct; string txt = costText(s.sig, costs[k], &ct);
            string cf = putFile("c.cost", txt), err; vector<string> a{"--explicitStrategy", "--twoDimensionalCost"}; if (rob) a.push_back("--sysInitRoboticsSemantics"); if (rec) a.push_back("--simpleRecovery"); if (json) a.push_back("--jsonOutput"); a.push_back(f); a.push_back(cf);
            Run r = run(a); c.add(C_RUNS); c.add(C_TRACES); bool exp = rob ? g.realizableRobotics() : g.realizableClassic();
            if (r.threw || r.rc != 0) err = "rc=" + S(r.rc) + " " + r.what + r.err; else if (r.verdict() != exp) err = string("the verdict is ") + (exp ? "unrealizable" : "realizable") + " although the specification is " + (exp ? "realizable" : "unrealizable");
            else if (exp) {
                i64 ns = 0, nt = 0; Auto au = parseWithHelpers(r.out, names, json); StratOpts o; o.robotics = rob; o.recovery = rec; err = checkStrategy(g, au, o, &ns, &nt);
                if (err.empty() && s.A.empty() && !rec) err = checkCost(g, au, ct, rob, &ns);
                c.add(C_STATES, ns); c.add(C_TRANS, nt); if (!err.empty()) err += "\n" + r.out;
            }
            if (!err.empty()) { a.resize(a.size() - 2); c.violation(hashKey(S(k) + S(rob) + S(rec) + s.text()), "cost file " + txt + "\n" + join(a, " ") + "\n" + err + "\n" + s.text()); }
        }
    };
    return d;
}
Reg d01("D01", [](const string &tier) {
    bool q = tier == "quick"; vector<Driver> v;
    static const vector<Cost> C1 = {{"1 1 >", {{2, "b'"}}}, {"1 0 <", {{1.5, "b & ! b'"}, {0.5, "! b & b'"}}}}, C2 = {{"1 1 <", {}}, {"0.5 2 >", {{1, "b ^ b'"}}}, {"5 1 <", {{1, "b'"}, {3, "! b' & ! b"}}}}, CA = {{"1 1 <", {{3, "b'"}, {1, "a & ! b'"}}}};
    for (auto &f : realizFamilies(q ? "tiny" : "small")) if (f->name != "noin" && f->name != "noout") {
        bool small = f->name != "1in1out" && f->name != "fullEnv" && f->name != "fullLive";
        v.push_back(drv(f, "", C1)); if (small || !q) v.push_back(drv(f, "more.", C2)); if (f->name != "oneOutFull" && (small || !q)) v.push_back(drv(f, "in.", CA));
        if (f->name == "live3" || !q) v.push_back(symbolicDriver(f, {{""}}, {0}, setup("-symbolic", C1[1])));
        if (f->name == "1in2out" || !q) v.push_back(symbolicDriver(f, {{""}}, {1}, setup("-symbolic", C1[0])));
        if (f->name == "2in1out" || !q) v.push_back(permissiveDriver(f, {""}, setup("-permissive", C1[0])));
        if (f->name == "live3" || f->name == "1in2out" || !q) v.push_back(protocolDriver(f, false, setup("", C1[0])));
    }
    { auto f = manyGoals(!q, 4); v.push_back(drv(f, "", C2)); }
    return v;
});
}
