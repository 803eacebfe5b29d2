// E01: estimators for synthesis under incomplete information (--computeIncompleteInformationEstimator)
#include "harness.hpp"
#include "family.hpp"
using namespace mc;
namespace {
struct ESpec { vector<string> obs, uno, con, est; Spec s; };   // s.sig.in = obs, uno, con; s.sig.out = est
string text(const ESpec &e, int order) {
    auto sec = [](const char *n, const vector<string> &v) { string r = string("[") + n + "]\n"; for (auto &x : v) r += x + "\n"; return r + "\n"; };
    auto fsec = [](const char *n, const vector<Fml> &v) { string r = string("[") + n + "]\n"; for (auto &x : v) r += x.txt + "\n"; return r + "\n"; };
    string o = sec("OBSERVABLE_INPUT", e.obs), u = sec("UNOBSERVABLE_INPUT", e.uno), c = sec("CONTROLLABLE_INPUT", e.con), m = sec("OUTPUT", e.est), v = order == 0 ? o + u + c + m : order == 1 ? m + c + u + o : u + m + o + c;
    return v + fsec("ENV_INIT", e.s.envI) + fsec("SYS_INIT", e.s.sysI) + fsec("ENV_TRANS", e.s.envT) + fsec("SYS_TRANS", e.s.sysT);
}
// The formula "$ n part0 ... part(n-1)", evaluated for every assignment of the 2n variables
bool evalShared(const string &line, const vector<string> &names, TT &r, string &why) {
    std::istringstream is(line); string w; is >> w; int n = -1; is >> n; if (w != "$" || n < 1) { why = "not a shared formula: " + line; return false; }
    vector<string> tok; while (is >> w) tok.push_back(w); size_t p = 0; vector<TT> parts; int nv = names.size(); bool ok = true;
    std::function<TT()> ex = [&]() -> TT {
        if (p >= tok.size()) { ok = false; return TT(nv); } string t = tok[p++];
        if (t == "0") return TT(nv); if (t == "1") return TT(nv, true); if (t == "!") return !ex();
        if (t == "&") { TT a = ex(), b = ex(); return a & b; } if (t == "|") { TT a = ex(), b = ex(); return a | b; } if (t == "^") { TT a = ex(), b = ex(); return a ^ b; }
        if (t == "?") { if (p >= tok.size()) { ok = false; return TT(nv); } int k = atoi(tok[p++].c_str()); if (k < 0 || k >= (int)parts.size()) { ok = false; return TT(nv); } return parts[k]; }
        for (int v = 0; v < nv; v++) if (names[v] == t) return TT::var(nv, v); ok = false; return TT(nv);
    };
    for (int i = 0; i < n && ok; i++) { TT t = ex(); parts.push_back(t); }
    if (!ok || p != tok.size()) { why = "malformed formula: " + line; return false; } r = parts.back(); return true;
}
struct Est { int n; TT sys, env; i64 states = 0, trans = 0; vector<char> reach, reach3; TT all; };
// Explicit computation, one transition at a time
Est oracle(const ESpec &e) {
    Est r; Game g(e.s); int no = e.obs.size(), nu = e.uno.size(), nc = e.con.size(), ne = e.est.size(), n = no + nu + nc + ne; r.n = n; unsigned N = 1u << n; auto mask = [](int lo, int k) { return ((1u << k) - 1) << lo; };
    unsigned U = mask(no, nu), E = mask(no + nu + nc, ne), C = mask(no + nu, nc); (void)C;
    auto closure = [&](const TT &t) { vector<char> in(N, 0); vector<unsigned> st; for (unsigned s = 0; s < N; s++) if (g.envI.get(s) && g.sysI.get(s)) { in[s] = 1; st.push_back(s); } while (!st.empty()) { unsigned s = st.back(); st.pop_back(); r.states++; for (unsigned q = 0; q < N; q++) if (t.get(s | q << n)) { r.trans++; if (!in[q]) { in[q] = 1; st.push_back(q); } } } return in; };
    TT both = g.envT & g.sysT; r.reach = closure(both); TT S(2 * n, true);
    for (unsigned s = 0; s < N; s++) if (r.reach[s]) for (unsigned q = 0; q < N; q++) if (g.envT.get(s | q << n) && !g.sysT.get(s | q << n)) for (unsigned a = 0; a < N; a++) if (!(a & ~U)) for (unsigned b = 0; b < N; b++) if (!(b & ~U)) S.set(((s & ~U) | a) | ((q & ~U) | b) << n, false);
    // best updates: estimates from the last one to the first one, min_ as large and max_ as small as possible
    for (int i = ne - 1; i >= 0; i--) { int want = e.est[i].compare(0, 4, "min_") == 0 ? 1 : e.est[i].compare(0, 4, "max_") == 0 ? 0 : -1; if (want < 0) continue; unsigned bit = 1u << (no + nu + nc + i); TT T = S;
        for (unsigned s = 0; s < N; s++) for (unsigned q = 0; q < N; q++) if (S.get(s | q << n) && ((q & bit) ? 1 : 0) != want) { bool better = false; for (unsigned b = 0; b < N && !better; b++) if (!(b & ~E)) { unsigned q2 = (q & ~E) | b; if (((q2 & bit) ? 1 : 0) == want && S.get(s | q2 << n)) better = true; } if (better) T.set(s | q << n, false); } S = T; }
    r.sys = S; vector<char> r2 = closure(both & S); TT A(2 * n);
    unsigned hideQ = U | C | E;
    for (unsigned s = 0; s < N; s++) if (r2[s]) for (unsigned q = 0; q < N; q++) if (g.envT.get(s | q << n)) { unsigned s0 = s & ~U, q0 = q & ~hideQ; A.set(s0 | q0 << n, true); }
    TT B(2 * n); for (unsigned s = 0; s < N; s++) for (unsigned q = 0; q < N; q++) if (A.get((s & ~U) | (q & ~hideQ) << n)) B.set(s | q << n, true); r.env = B;
    r.reach3 = closure(g.envT & B & S); r.all = g.envT & B & S; return r;
}
Driver drv(const string &nm, const vector<string> &obs, const vector<string> &uno, const vector<string> &con, const vector<string> &est, const vector<string> &eI, const vector<string> &sI, const vector<string> &eT, const vector<string> &sT, const vector<string> &full = {}, const vector<string> &fullE = {}, bool reorder = false) {
    vector<string> in = obs; in.insert(in.end(), uno.begin(), uno.end()); in.insert(in.end(), con.begin(), con.end()); auto fam = prod(nm, in, est, eI, sI, eT, sT, {}, 0, {}, 0);
    if (!full.empty()) { auto f = allFunctions(fam->sig, full); vector<vector<Fml>> r; if (sT.empty()) r = f; else for (auto &x : fam->sT) for (auto &y : f) { auto z = x; z.insert(z.end(), y.begin(), y.end()); r.push_back(z); } fam->sT = r; }
    if (!fullE.empty()) fam->eT = allFunctions(fam->sig, fullE);
    static const long sched[4][2] = {{12, 3}, {14, 1}, {25, 10}, {40, 40}}; i64 M = reorder ? 4 : 1;
    auto get = [=](i64 i) { ESpec e; e.obs = obs; e.uno = uno; e.con = con; e.est = est; e.s = fam->get(i / M); return e; };
    Driver d; d.id = nm; d.size = [=] { return fam->size() * M; }; d.describe = [=](i64 i) { return text(get(i), i / M % 3); };
    d.body = [=](i64 i, Ctx &c) {
        ESpec e = get(i); Est o = oracle(e); c.add(C_STATES, o.states); c.add(C_TRANS, o.trans); string t = text(e, i / M % 3), f = putFile("e.slugsin", t); int n = o.n;
        if (reorder) { g_reorderFirst = sched[i % M][0]; g_reorderStep = sched[i % M][1]; g_reorderings = 0; } Run r = run({"--computeIncompleteInformationEstimator", f}); if (reorder) { c.add(C_REORD, g_reorderings); g_reorderFirst = g_reorderStep = 0; }
        c.add(C_RUNS); c.add(o.sys.all() || o.sys.none() ? C_B : C_A); string err; vector<string> names = in; names.insert(names.end(), est.begin(), est.end()); for (int v = 0; v < n; v++) names.push_back(names[v] + "'");
        if (r.threw || r.rc != 0) err = "rc=" + S(r.rc) + " " + r.what + r.err;
        else {
            std::istringstream is(r.out); string l, cur; std::map<string, vector<string>> secs; while (std::getline(is, l)) { if (l.empty() || l[0] == '#') continue; if (l[0] == '[') { cur = l; continue; } secs[cur].push_back(l); }
            if (secs.size() != 2 || secs["[SYS_TRANS]"].size() != 1 || secs["[ENV_TRANS]"].size() != 1) err = "expected one formula in [SYS_TRANS] and one in [ENV_TRANS]:\n" + r.out;
            auto cmp = [&](const char *s, const TT &want) { TT got; if (!err.empty()) return; if (!evalShared(secs[s][0], names, got, err)) return; c.add(C_TRACES, 1ll << (2 * n)); if (got != want) for (unsigned k = 0; k < (1u << (2 * n)); k++) if (got.get(k) != want.get(k)) { err = string(s) + (got.get(k) ? " admits" : " excludes"); for (int v = 0; v < 2 * n; v++) err += " " + names[v] + "=" + S(k >> v & 1); err += "\n" + r.out; return; } };
            if (err.empty()) { cmp("[SYS_TRANS]", o.sys); cmp("[ENV_TRANS]", o.env); }
            // ranges of differences between integer variables
            if (err.empty()) {
                struct IV { string name; vector<int> bits; int lo, hi; bool post; int first; }; vector<IV> iv;
                for (int v = 0; v < 2 * n; v++) { string x = names[v]; bool post = v >= n; if (post) x.pop_back(); size_t at = x.find("@0."); if (at == string::npos) continue; IV q; q.name = x.substr(0, at); q.first = v; sscanf(x.c_str() + at + 3, "%d.%d", &q.lo, &q.hi); q.post = post; q.bits.push_back(v); for (int b = 1; (q.hi - q.lo) >> b; b++) for (int z = 0; z < 2 * n; z++) if (names[z] == q.name + "@" + S(b) + (post ? "'" : "")) q.bits.push_back(z); iv.push_back(q); }
                std::set<string> lines; { std::istringstream es(r.err); while (std::getline(es, l)) if (l.find("'= ") != string::npos) lines.insert(l); } size_t expect = 0;
                for (auto &ref : iv) for (auto &sim : iv) if (sim.first != ref.first && sim.post && sim.first >= n + (int)in.size()) {
                    expect++; int mn = 0x7fffffff, mx = -mn - 1; auto val = [&](const IV &q, unsigned k) { int z = 0; for (size_t b = 0; b < q.bits.size(); b++) if (k >> q.bits[b] & 1) z |= 1 << b; return q.lo + z; };
                    for (unsigned k = 0; k < (1u << (2 * n)); k++) if (o.reach3[k & ((1u << n) - 1)] && o.all.get(k)) { int a = val(ref, k), b = val(sim, k); if (a > ref.hi || b > sim.hi) continue; mn = std::min(mn, b - a); mx = std::max(mx, b - a); }
                    string line = sim.name + "'= " + ref.name + (ref.post ? "'" : "") + " + [" + S(mn) + "," + S(mx) + "]"; if (err.empty() && !lines.count(line)) err = "missing in the min/max analysis: " + line + "\n" + r.err;
                }
                if (expect) c.add(C_NONTRIV); if (err.empty() && lines.size() != expect) err = S(lines.size()) + " lines in the min/max analysis, expected " + S(expect) + "\n" + r.err;
            }
        }
        if (!err.empty()) c.violation(hashKey(t), err + "\n" + t);
    };
    return d;
}
Reg e01("E01", [](const string &tier) {
    vector<Driver> v; bool th = tier == "thorough";
    v.push_back(drv("sensor", {"o"}, {"u"}, {"c"}, {"e"}, {"", "!u", "o<->u"}, {"", "e", "u->e"}, {"", "u'->u", "o'<->u'", "o'->u'", "c->(u'<->!u)", "u'->(o'|c)", "c'->!o'", "e->o'", "0"},
        {"", "u'->e'", "e'->u'", "e'<->u'", "(e&u)->e'", "(o'&!u')->!e'", "(e|o')->e'", "e'->(e|u')", "u->e'", "e'->!c'", "0", "u'->e';e'->(e|o')"}));
    for (auto &p : vector<vector<string>>{{"min_e", "max_e"}, {"max_e", "min_e"}, {"min_e", "z"}, {"max_a", "max_b"}, {"min_a", "min_b"}}) { string a = p[0], b = p[1];
        v.push_back(drv("bounds-" + a + "-" + b, {"o"}, {"u"}, {}, p, {"", "!u"}, {"", "!" + a}, {"", "o'->u'", "u'<->(u^o')", "u'->(u|o')"},
            {"u'->" + b + "';" + a + "'->u'", "u'->" + a + "';" + b + "'->u'", "u'->(" + a + "'|" + b + "')", a + "'->" + b + "'", "!(" + a + "'&" + b + "')", a + "'^" + b + "'", "(" + a + "&u')->" + b + "';(o'&u)->" + a + "'", "u'->(" + a + "'^" + b + "')", "u'->" + a + "';" + b + "->(u'&o')", a + "'|" + b + "'|u'"})); }
    v.push_back(drv("allSys", {"o"}, {"u"}, {}, {"e"}, {"", "!u"}, {""}, {"", "o'->u'", "u'->(u|o')"}, {}, vector<string>{"u", "u'", "e", "e'"}));
    v.push_back(drv("allSysMin", {"o"}, {"u"}, {}, {"min_e"}, {"!u"}, {"!min_e"}, {"", "o'->u'", "u'->(u|o')"}, {}, {"o'", "u'", "min_e'"}));
    v.push_back(drv("allEnv", {"o"}, {"u"}, {}, {"max_e"}, {"", "!u"}, {"", "!max_e"}, {}, {"u'->max_e'", "u'->max_e';max_e->max_e'", "max_e'->u'", "(u&max_e)->max_e'"}, {}, {"u", "u'", "o'"}));
    v.push_back(drv("control", {"o"}, {"u"}, {"c", "d"}, {"e"}, {"", "!u&!c"}, {"", "!e"}, {"", "u'->(u|c')", "c->!u'", "(c^d)->(o'<->u')", "o'->d"}, {"", "u'->e'", "e'->!c", "c'->e'", "(u'&d')->e'", "d'->(e'<->u')", "(c&d)->!e'"}));
    v.push_back(drv("hidden", {}, {"u", "v"}, {}, {"e"}, {"", "!u&!v", "u^v"}, {"", "!e"}, {"", "u'<->v", "v'<->(u^v)", "u'->(u|v)", "!(u'&v')", "u'^v'"}, {"", "u'->e'", "v'->e'", "(u'&v')->e'", "e'->(u'|v')", "(e&v)->!e'", "u->e'", "(u^v')->e'"}));
    v.push_back(drv("seen", {"o", "p"}, {}, {}, {"min_e"}, {"", "!o"}, {"", "!min_e"}, {"", "o'^p'", "min_e->p'", "o->(o'|p')"}, {"", "min_e'->o'", "min_e'->(min_e|p')", "o->!min_e'", "p'<->min_e'"}));
    // integer estimates
    v.push_back(drv("ints", {"o"}, {"x@0.0.1"}, {}, {"max_x@0.0.2", "max_x@1"}, {"", "!x@0.0.1"}, {"!max_x@0.0.2&!max_x@1", ""}, {"", "x@0.0.1->x@0.0.1'", "o'->x@0.0.1'"},
        {"!(max_x@0.0.2'&max_x@1');x@0.0.1'->(max_x@0.0.2'|max_x@1')", "!(max_x@0.0.2'&max_x@1');x@0.0.1'->max_x@0.0.2'", "!(max_x@0.0.2'&max_x@1');max_x@0.0.2->max_x@1'", "!(max_x@0.0.2'&max_x@1');(max_x@0.0.2&o')->max_x@1';x@0.0.1'->max_x@0.0.2'"}));
    v.push_back(drv("minmax", {"o@0.1.2"}, {"x@0.0.1"}, {}, {"min_x@0.0.1", "max_x@0.0.1"}, {"", "!x@0.0.1"}, {"!min_x@0.0.1&!max_x@0.0.1", "!min_x@0.0.1&max_x@0.0.1"}, {"", "o@0.1.2'->x@0.0.1'", "o@0.1.2'<->(x@0.0.1^x@0.0.1')", "x@0.0.1->x@0.0.1'"},
        {"min_x@0.0.1'->x@0.0.1';x@0.0.1'->max_x@0.0.1'", "min_x@0.0.1'->x@0.0.1'", "x@0.0.1'->max_x@0.0.1'", "min_x@0.0.1'->(o@0.1.2'&x@0.0.1');x@0.0.1'->max_x@0.0.1'", "(min_x@0.0.1&!o@0.1.2')->max_x@0.0.1'"}));
    // estimates and references that do not use all their values
    v.push_back(drv("intsTight", {"o@0.1.4", "o@1"}, {}, {}, {"max_x@0.0.3", "max_x@1"}, {"", "o@1"}, {"", "max_x@1"}, {"", "o@1'", "o@0.1.4'<->!o@1'", "!o@1'", "o@1->!o@1'"},
        {"", "max_x@1'", "max_x@0.0.3'<->max_x@1'", "max_x@0.0.3'<->!max_x@1'", "(max_x@0.0.3'<->o@0.1.4')&(max_x@1'<->o@1')", "max_x@1'<->o@1", "!max_x@1'&(max_x@0.0.3'<->o@1')", "(o@1'->max_x@1')&(o@0.1.4'->max_x@0.0.3')"}));
    v.push_back(drv("intsThree", {"o@0.2.3"}, {}, {}, {"min_x@0.0.7", "min_x@1", "min_x@2"}, {""}, {"", "min_x@2"}, {"", "o@0.2.3'", "o@0.2.3'^o@0.2.3"},
        {"min_x@2'", "min_x@1'", "min_x@2'&!min_x@1'", "min_x@2'^min_x@1'", "min_x@0.0.7'&(min_x@1'<->min_x@2')", "min_x@2'<->o@0.2.3'", "!(min_x@2'&min_x@1')&(o@0.2.3->min_x@1')", "!min_x@2'&!min_x@1'"}));
    v.push_back(drv("intsPartial", {"o@0.0.2", "o@1"}, {}, {}, {"y@0.3.5", "y@1"}, {"!(o@0.0.2&o@1)"}, {"!(y@0.3.5&y@1)", "y@1&!y@0.3.5"}, {"!(o@0.0.2'&o@1')", "!(o@0.0.2'&o@1');o@1'", "!(o@0.0.2'&o@1');o@1->o@0.0.2'"},
        {"!(y@0.3.5'&y@1')", "y@1'&!y@0.3.5'", "y@0.3.5'^y@1'", "(y@0.3.5'<->o@0.0.2')&(y@1'<->o@1')", "!(y@0.3.5'&y@1')&(o@1'->y@1')", "(y@1'<->o@0.0.2)&!y@0.3.5'"}));
    // variable reordering while the estimator is computed and written
    v.push_back(drv("reorder", {"o"}, {"u", "v"}, {"c"}, {"min_e", "max_f"}, {"", "!u"}, {"", "!min_e&max_f"}, {"", "u'->(u|c)", "(u'^v')->(c|o')", "o'<->(u^v)"}, {"u'->max_f';min_e'->u'", "(u'&v')->max_f';min_e'->(u'|v')", "(c&u')->max_f';(min_e'&!c')->(v'&o')", "(u'^v'^c')->max_f';min_e'->(o|!u')", "(min_e^u')->(max_f'^min_e')"}, {}, {}, true));
    return v;
});
}
