#include "family.hpp"
namespace mc {
vector<vector<Fml>> choices(const Sig &s, const vector<string> &v) {
    vector<vector<Fml>> r;
    for (auto &x : v) { vector<Fml> l; std::istringstream is(x); string p; while (std::getline(is, p, ';')) { if (p.find_first_not_of(' ') != string::npos) l.push_back(fml(s, p)); } r.push_back(l); }
    return r;
}
vector<vector<Fml>> combos(const Sig &s, const vector<string> &pool, int mn, int mx) {
    vector<vector<Fml>> r; vector<Fml> f = fmls(s, pool);
    for (auto &x : subsets(f.size(), mx)) if ((int)x.size() >= mn) { vector<Fml> l; for (int i : x) l.push_back(f[i]); r.push_back(l); }
    return r;
}
std::shared_ptr<ProdFamily> prod(const string &name, const vector<string> &in, const vector<string> &out,
    const vector<string> &eI, const vector<string> &sI, const vector<string> &eT, const vector<string> &sT,
    vector<string> A, int aMax, vector<string> G, int gMax) {
    auto p = std::make_shared<ProdFamily>(); p->name = name; p->sig.in = in; p->sig.out = out; const Sig &g = p->sig;
    p->eI = choices(g, eI); p->sI = choices(g, sI); p->eT = choices(g, eT); p->sT = choices(g, sT);
    p->A = combos(g, A, 0, aMax); p->G = combos(g, G, 0, gMax);
    return p;
}
vector<vector<Fml>> allFunctions(const Sig &s, const vector<string> &vars) {
    vector<vector<Fml>> r; int k = vars.size();
    for (u64 f = 0; f < (1ull << (1 << k)); f++) {
        string t; 
        for (int m = 0; m < (1 << k); m++) if (f >> m & 1) { string c; for (int v = 0; v < k; v++) c += string(v ? "&" : "") + (m >> v & 1 ? "" : "!") + vars[v]; t += (t.empty() ? "" : " | ") + c; }
        if (t.empty()) t = "0";
        r.push_back({fml(s, t)});
    }
    return r;
}
// A product family with some sections replaced by "every function over these variables"
static std::shared_ptr<ProdFamily> full(std::shared_ptr<ProdFamily> p, const vector<string> &eT, const vector<string> &sT, const vector<string> &A = {}, const vector<string> &G = {}) {
    if (!eT.empty()) p->eT = allFunctions(p->sig, eT);
    if (!sT.empty()) p->sT = allFunctions(p->sig, sT);
    if (!A.empty()) p->A = allFunctions(p->sig, A);
    if (!G.empty()) p->G = allFunctions(p->sig, G);
    return p;
}
// Every initial condition: all functions of the inputs for the environment (or some), all functions of all variables for the system
FamilyPtr initFamily(bool allEnv) {
    auto p = prod("fullInit", {"a", "e"}, {"b"}, {"", "a^e", "!a", "a&e", "0"}, {}, {"", "b->a'"}, {"", "b'->a'", "!b&!b'", "(a&e)->!b'"}, {}, 0, {"b'|e'"}, 1);
    if (allEnv) p->eI = allFunctions(p->sig, {"a", "e"});
    p->sI = allFunctions(p->sig, {"a", "e", "b"}); return p;
}
FamilyPtr manyGoals(bool deep, int step) {
    auto f = std::make_shared<ListFamily>(); f->name = "manyGoals";
    auto sig = std::make_shared<Sig>(); sig->in = {"a"}; sig->out = {"b", "c"};
    auto G = std::make_shared<vector<Fml>>(fmls(*sig, {"b'&c'", "!b'&c'", "b'&!c'", "!b'&!c'", "b'", "a'&b'", "!a'&c", "b^c'", "!c'"})), A = std::make_shared<vector<Fml>>(fmls(*sig, {"a'", "!a'", "b->a'", "a'^a", "c&a'", "!a'|b", "a&a'"}));
    auto eT = std::make_shared<vector<vector<Fml>>>(choices(*sig, {"", "b->a'", "a|a'"})), sT = std::make_shared<vector<vector<Fml>>>(choices(*sig, {"(b'<->b)|(c'<->c)", "", "!(b'&c')|a'"})), sI = std::make_shared<vector<vector<Fml>>>(choices(*sig, {"!b&!c", ""}));
    vector<int> ks = deep ? vector<int>{4, 5, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 31, 32, 33} : vector<int>{4, 5, 8, 9, 10, 11, 16, 17, 33}, ms = deep ? vector<int>{0, 1, 3, 4, 5, 8, 9, 10, 11, 16, 17} : vector<int>{0, 3, 4, 5, 9, 10, 11, 17}; int no = 0;
    for (int k : ks) for (int m : ms) for (int e = 0; e < 3; e++) for (int s = 0; s < 3; s++) for (int o = 0; o < (deep ? 3 : 1); o++) {
        if (k * m > 120 || no++ % step) continue;
        f->l.push_back([=] { Spec p; p.sig = *sig; p.sysI = (*sI)[(k + o) % 2]; p.envT = (*eT)[e]; p.sysT = (*sT)[s]; int st = 1 + (k + m + o) % 2 * 3; for (int i = 0; i < k; i++) p.G.push_back((*G)[(i * st + o + m) % G->size()]); for (int i = 0; i < m; i++) p.A.push_back((*A)[(i * st + o) % A->size()]); return p; });
    }
    return f;
}
FamilyPtr manyVariables(int maxVars, bool liveness) {
    auto f = std::make_shared<ListFamily>(); f->name = "manyVariables";
    vector<std::pair<int, int>> shape{{1, 4}, {4, 1}, {2, 3}, {0, 5}, {5, 0}, {3, 3}, {1, 6}, {6, 1}, {0, 7}, {7, 0}, {4, 4}, {1, 8}, {8, 1}, {0, 9}, {5, 5}, {2, 8}, {9, 1}, {0, 10}};
    for (auto &sh : shape) if (sh.first + sh.second <= maxVars) for (int e = 0; e < 4; e++) for (int s = 0; s < 5; s++) for (int g = 0; g < 3; g++) {
        int p = sh.first, q = sh.second; if ((!p && e) || (!q && s > 0) || (!liveness && g == 2)) continue;
        f->l.push_back([=] {
            Spec r; for (int i = 0; i < p; i++) r.sig.in.push_back("in" + S(i * 5)); for (int i = 0; i < q; i++) r.sig.out.push_back("out" + S(i * 9)); const Sig &z = r.sig; auto F = [&](const string &x) { return fml(z, x); };
            auto I = [&](int i) { return z.in[i]; }; auto O = [&](int i) { return z.out[i]; };
            if (e == 1) for (int i = 0; i + 1 < p; i++) r.envT.push_back(F(I(i) + "->" + I(i + 1) + "'"));
            if (e == 2) for (int i = 0; i < p; i++) for (int j = 0; j < i; j++) r.envT.push_back(F("!(" + I(i) + "'&" + I(j) + "')"));
            if (e == 3) { r.envI.push_back(F("!" + I(0))); for (int i = 0; i < p; i++) r.envT.push_back(F(q ? O(i % q) + "->(" + I(i) + "'|" + I(0) + ")" : I(i) + "'<->!" + I((i + 1) % p))); }
            if (q && s == 1) for (int i = 0; i < q; i++) r.sysT.push_back(F(O(i) + "'<->" + (i ? O(i - 1) : p ? I(p - 1) + "'" : "!" + O(q - 1))));                                       // shift register
            if (q && s == 2) { string c = "1"; for (int i = 0; i < q; i++) { r.sysT.push_back(F(O(i) + "'<->(" + O(i) + "^(" + c + "))")); c += "&" + O(i); } r.sysI.push_back(F("!" + O(0))); }      // counter
            if (q && s == 3) { string c; for (int i = 0; i < q; i++) { c += (i ? "|" : "") + O(i) + "'"; for (int j = 0; j < i; j++) r.sysT.push_back(F("!(" + O(i) + "'&" + O(j) + "')")); } r.sysT.push_back(F(c)); r.sysI.push_back(F(O(q - 1))); if (p) r.sysT.push_back(F(I(0) + "'->(" + O(0) + "'<->" + O(0) + ")")); }   // one at a time
            if (q && s == 4) for (int i = 0; i < q; i++) r.sysT.push_back(F("(" + O(i) + "'<->" + O(i) + ")|" + (p ? I(i % p) + "'" : O((i + 1) % q))));                                             // changes only when told
            if (g == 0) return r; string all = "1", none = "1"; for (int i = 0; i < q; i++) { all += "&" + O(i) + "'"; none += "&!" + O(i) + "'"; }
            if (q && s == 3) all = "1&" + O(0) + "'"; r.G.push_back(F(q ? all : I(0) + "'")); if (g == 2) { r.G.push_back(F(q ? none : "!" + I(p - 1) + "'")); if (p) r.A.push_back(F(I(p - 1) + "'")); if (p) r.A.push_back(F("!" + I(0) + "'")); }
            return r;
        });
    }
    return f;
}
vector<FamilyPtr> withScale(vector<FamilyPtr> v, const string &tier, int vars, int thoroughVars, int step) {
    bool T = tier == "thorough"; v.push_back(manyGoals(T, T ? 1 : step)); if (vars) v.push_back(manyVariables(T ? thoroughVars : vars)); return v;
}
vector<FamilyPtr> realizFamilies(const string &tier) {
    vector<FamilyPtr> v; bool th = tier == "thorough", tiny = tier == "tiny", sm = tier == "small" || tiny;   // small: where each instance costs several runs
    // 1 input, 1 output: every section varied
    v.push_back(prod("1in1out", {"a"}, {"b"},
        {"", "a", "!a"}, {"", "b", "a^b"},
        {"", "a'", "a|a'", "!a|!a'", "b->a'", "a'<->b", "b&a'", "0"},
        {"", "b'", "b'<->a", "b'<->a'", "b->b'", "(a&b)->!b'", "!(a'&b')", "b^b'"},
        {"a'", "a&a'", "!a'", "a^b'"}, sm ? 1 : 2, {"b'", "!b'", "b&!b'", "a'&b'", "b<->b'"}, 2));
    // liveness heavy: three assumptions / guarantees over transitions
    v.push_back(prod("live3", {"a"}, {"b"}, {"", "!a"}, {"", "!b"}, {"", "b->a'", "!b->!a'"}, {"", "a->(b'<->b)", "!a->(b'<->b)"},
        {"a'", "!a'", "b&a'", "b'"}, 3, {"b", "!b'", "a&b'", "!a&!b'"}, 3));
    // no inputs / no outputs
    v.push_back(prod("noin", {}, {"b", "c"}, {""}, {"", "b", "!b&!c", "0"}, {"", "b", "0"}, {"", "b'<->!b", "b->c'", "c->!c'", "b'<->c", "!b'|!c'", "0"}, {"b'", "!c'"}, 2, {"b'", "b&c'", "!b'&!c'", "b^b'"}, 2));
    v.push_back(prod("noout", {"a", "e"}, {}, {"", "a", "!a&!e", "0"}, {""}, {"", "a'<->!a", "a->e'", "!a'|!e'", "0"}, {"", "a", "a'|e'", "0"}, {"a'", "!e'"}, 2, {"a'", "a&e'", "!a'&!e'"}, 2));
    // 2 inputs, 1 output and 1 input, 2 outputs
    v.push_back(prod("2in1out", {"a", "e"}, {"b"}, {"", "a&!e"}, {"", "b<->a"}, {"", "!(a'&e')", "a'->!e", "b->e'", "(a'<->a)|(e'<->e)"},
        {"", "b'->a'", "e'->!b'", "b'<->(a^e')", "(a&e)->b'"}, {"a'", "e'", "!a'&b"}, th ? 3 : 2, {"b'", "a'&b", "!b'&e", "b'^a"}, 2));
    v.push_back(prod("1in2out", {"a"}, {"b", "c"}, {"", "a"}, {"", "!b&!c"}, {"", "b->a'", "a'<->(b|c)"},
        {"", "!(b'&c')", "b->c'; c->!b'", "(b'<->b)|(c'<->c)", "a'->!c'", "b'->a; c'->!a"}, {"a'", "!a'", "b&a'"}, 2, {"b'", "c'", "b&c", "!b'&!c'"}, th ? 3 : 2));
    // complete function spaces
    v.push_back(full(prod("fullEnv", {"a"}, {"b"}, {""}, {"", "!b"}, {}, tiny ? vector<string>{"", "b->b'", "b'<->a"} : vector<string>{"", "b'<->a'", "b->b'", "b'<->a", "!(a'&b')", "b^b'"}, {"a'", "b&a'"}, tiny ? 1 : 2, {"b'", "!b'", "a'&b"}, tiny ? 1 : 2), {"a", "b", "a'"}, {}));
    if (!tiny) v.push_back(full(prod("fullSys", {"a"}, {"b"}, {""}, {""}, sm ? vector<string>{"b->a'"} : vector<string>{"", "b->a'"}, {}, {"a'"}, 1, {"b'&!a'"}, 1), {}, {"a", "b", "a'", "b'"}));
    v.push_back(full(prod("fullLive", {"a"}, {"b"}, {""}, {""}, {"", "a|a'"}, {"", "b->b'", "b'->a"}, {}, 0, {}, 0), {}, {}, sm ? vector<string>{"b", "a'"} : vector<string>{"b", "a'", "b'"}, {"a", "a'", "b'"}));
    v.push_back(full(prod("oneOutFull", {}, {"b"}, {""}, {"", "b", "!b", "0"}, {"", "b"}, {}, {"b'", "b"}, 2, {"b'", "!b'", "b&b'", "b&!b'"}, 4), {}, {"b", "b'"}));
    if (th) {
        v.push_back(full(prod("fullEnvDeep", {"a"}, {"b"}, {"", "a"}, {"", "!b"}, {}, {"", "b'<->a'", "b->b'", "b'<->a", "!(a'&b')", "b^b'", "b'^a'", "a->b'", "a'->b'", "(a&b)->!b'"}, {"a'", "b&a'", "!a'"}, 2, {"b'", "!b'", "a'&b", "b&!b'"}, 3), {"a", "b", "a'"}, {}));
        v.push_back(full(prod("fullSysDeep", {"a"}, {"b"}, {""}, {"", "b"}, {"", "b->a'", "a'<->b", "a|a'"}, {}, {"a'", "a&!a'"}, 2, {"b'&!a'", "b'", "!b"}, 2), {}, {"a", "b", "a'", "b'"}));
        v.push_back(full(prod("fullLiveDeep", {"a"}, {"b"}, {""}, {""}, {"", "a|a'", "b->a'"}, {"", "b->b'", "b'->a", "(a&b)->!b'"}, {}, 0, {}, 0), {}, {}, {"b", "a'", "b'"}, {"a", "a'", "b'"}));
        v.push_back(prod("1in1out-deep", {"a"}, {"b"}, {"", "a"}, {"", "b", "!a|b"},
            {"", "a'", "!a'", "a<->a'", "a^a'", "b->a'", "b->!a'", "!b->a'", "b<->a'", "a&b->a'", "a|b|a'", "(a^b)->a'"},
            {"", "b'", "!b'", "b'<->a", "b'^a", "b'<->a'", "b'^a'", "b->b'", "!b->!b'", "b^b'", "a->b'", "a'->b'", "a&a'->b'", "(a&b)->!b'", "a'|b|b'", "b'<->(a^b)"},
            {"a'", "a&a'", "!a'", "a^b'", "b", "a^a'"}, 2, {"b'", "!b'", "b&!b'", "a'&b'", "b<->b'", "a^b'", "b&a"}, 2));
        v.push_back(prod("2in2out", {"a", "e"}, {"b", "c"}, {""}, {"", "!b&!c"}, {"", "!(a'&e')", "b->e'", "(a'<->a)|(e'<->e)", "c->(a'<->a)"},
            {"", "!(b'&c')", "b->c'; c->!b'", "(b'<->b)|(c'<->c)", "a'->!c'", "b'->a; c'->e'", "b'->a'; c'->e'"}, {"a'", "e'", "b&!a'"}, 2, {"b'", "c'", "b&c", "a&b'"}, 3));
    }
    return v;
}
}
