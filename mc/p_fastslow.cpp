// F01: synthesis for fast and slow actions (--IROSfastslow)
#include "harness.hpp"
#include "family.hpp"
#include "strategy.hpp"
using namespace mc;
namespace {
// The game with the intermediate positions of fast/slow execution made explicit: inputs and fast outputs have
// already changed, slow outputs not yet.  Such a position must be safe: some transition that satisfies the safety
// guarantees leads to it and some leaves it.
Game fastSlow(const Spec &s, unsigned slow) {
    Game g(s); TT nt(g.sysT.nv); vector<char> from(g.NS, 0), to(g.NS, 0);
    for (int p = 0; p < g.NS; p++) for (int x = 0; x < g.NI; x++) for (int y = 0; y < g.NO; y++) if (g.sT(p, x, y)) { from[p] = 1; to[g.st(x, y)] = 1; }
    for (int p = 0; p < g.NS; p++) for (int x = 0; x < g.NI; x++) for (int y = 0; y < g.NO; y++) if (g.sT(p, x, y)) {
        unsigned mid = g.st(x, (y & ~slow) | ((p >> g.ni) & slow)); if (from[mid] && to[mid]) nt.set(g.key(p, x, y), true);
    }
    g.sysT = nt; g.solve(); return g;
}
string text(const Spec &s, unsigned slow, bool slowFirst) {
    Spec t = s; string r = s.text(), in, f, sl; size_t b = r.find("[OUTPUT]"), e = r.find("\n[", b); if (e == string::npos) e = r.size(); string rest = r.substr(e);
    for (int i = 0; i < s.sig.no(); i++) (slow >> i & 1 ? sl : f) += s.sig.out[i] + "\n";
    return r.substr(0, b) + (slowFirst ? "[OUTPUT_S]\n" + sl + "\n[OUTPUT_F]\n" + f : "[OUTPUT_F]\n" + f + "\n[OUTPUT_S]\n" + sl) + rest;
}
SetupPtr setup(const string &name, unsigned slow) {
    auto u = std::make_shared<Setup>(); u->name = name; u->opts = {"--IROSfastslow"}; u->game = [=](const Spec &s) { return fastSlow(s, slow); }; u->text = [=](const Spec &s) { return text(s, slow, slow & 1); }; return u;
}
Driver drv(const FamilyPtr &fam, unsigned slow) {
    Driver d; d.id = fam->name; d.size = [=] { return fam->size(); }; d.describe = [=](i64 i) { return text(fam->get(i), slow, i & 1); };
    d.body = [=](i64 i, Ctx &c) {
        Spec s = fam->get(i); Game g = fastSlow(s, slow); c.add(C_STATES, g.refStates); c.add(C_TRANS, g.refTrans); string t = text(s, slow, i & 1), f = putFile("s.slugsin", t); auto names = preNames(s.sig);
        Game plain(s); plain.solve(); if (plain.realizableClassic() != g.realizableClassic()) c.add(C_NONTRIV);
        for (int rob = 0; rob < 2; rob++) for (int ex = 0; ex < 3; ex++) {
            vector<string> a{"--IROSfastslow"}; if (ex) a.push_back("--explicitStrategy"); if (ex == 2) a.push_back("--simpleRecovery"); if (rob) a.push_back("--sysInitRoboticsSemantics"); a.push_back(f);
            Run r = run(a); c.add(C_RUNS); bool exp = rob ? g.realizableRobotics() : g.realizableClassic(); string err; c.add(exp ? C_A : C_B);
            if (r.threw || r.rc != 0) err = "rc=" + S(r.rc) + " " + r.what + r.err; else if (r.verdict() != exp) err = string("reported ") + (exp ? "unrealizable" : "realizable");
            else if (exp && ex) { i64 ns = 0, nt = 0; Auto au = parseText(r.out, names); StratOpts o; o.robotics = rob; o.recovery = ex == 2; err = checkStrategy(g, au, o, &ns, &nt); c.add(C_TRACES); c.add(C_STATES, ns); c.add(C_TRANS, nt); if (!err.empty()) err += "\n" + r.out; }
            if (!err.empty()) c.violation(hashKey(S(rob) + S(ex) + t), join(a, " ") + "\n" + err + "\n" + t);
        }
    };
    return d;
}
Reg f01("F01", [](const string &tier) {
    vector<Driver> v; bool th = tier == "thorough";
    auto mk = [&](const string &n, const vector<string> &in, const vector<string> &out, const vector<string> &eI, const vector<string> &sI, const vector<string> &eT, const vector<string> &sT, vector<string> A, int am, vector<string> G, int gm, unsigned slow) {
        auto f = prod(n, in, out, eI, sI, eT, sT, A, am, G, gm); v.push_back(drv(f, slow)); f = std::make_shared<ProdFamily>(*f);
        if (f->size() > 2000 && !th) f->sT.resize(4);
        v.push_back(permissiveDriver(f, {""}, setup("-permissive", slow))); v.push_back(symbolicDriver(f, {{""}}, th ? vector<int>{0, 1} : vector<int>{0}, setup("-symbolic", slow))); v.push_back(protocolDriver(f, false, setup("", slow)));
    };
    mk("fastslow", {"a"}, {"f", "s"}, {"", "a"}, {"", "!f&!s", "s"}, {"", "s->a'", "f->!a'", "a'<->(f^s)"},
        {"", "!(f'&s')", "!(f&!s)", "!(!f'&s')", "s'->f'", "(f<->f')|(s<->s')", "!(a'&f'&!s')", "a'->s'", "!(f&s);!(a&f&!s)", "f'->!f;s'->a", "(s<->s')|a", "!(a&!f&s);!(!a&f&!s)"},
        {"a'", "!a'", "s&a'"}, th ? 2 : 1, {"f'&s'", "!s'", "s'&!f'", "f'", "f&!f'"}, 2, 2);
    mk("slowfast", {"a"}, {"s", "f"}, {""}, {"", "s<->f"}, {"", "!(a&a')"}, {"s'->f'", "!(s'&f')", "!(f'&!s'&a')", "!(s&!f);s'|f'", "(s'^f')|a'", "s<->s'"}, {"a'"}, 1, {"s'", "!s'", "f'&!s'"}, 2, 1);
    mk("onlyslow", {"a"}, {"s"}, {"", "a"}, {"", "s"}, {"", "s->a'"}, {"", "s'", "!s'|a'", "s<->!s'", "!(a&s)", "!(a'&!s')", "!(a&!s)"}, {"a'"}, 1, {"s'", "!s'", "s&!s'"}, 2, 1);
    mk("onlyfast", {"a"}, {"f"}, {"", "a"}, {"", "f"}, {"", "f->a'"}, {"", "f'", "!f'|a'", "f<->!f'", "!(a&f)", "!(a'&!f')", "0", "!f'&f"}, {"a'"}, 1, {"f'", "!f'", "f&!f'"}, 2, 0);
    mk("twoeach", {"a"}, {"f", "g", "s"}, {""}, {"", "!f&!g&!s"}, {"", "s->a'"}, {"!(f'&g')", "!(f'&g');!(f'&s')", "(f<->f')|(s<->s')", "!(s'&!g')", "!(a'&g'&!s');s'->(f'^g')", "s'->(f|s)"}, {"a'"}, 1, {"s'", "!s'&f'", "g'"}, 2, 4);
    mk("noinput", {}, {"f", "s"}, {""}, {"", "!f&!s", "f&s"}, {"", "0", "f->!s"}, {"", "!(f'&s')", "!(f&!s)", "s'->f'", "(f<->f')|(s<->s')", "s<->!s'", "!f'|!s'|f"}, {"s'"}, 1, {"f'&s'", "!s'", "s'&!f'"}, 2, 2);
    { auto p = prod("allSafety", {"a"}, {"f", "s"}, {""}, {""}, {""}, {}, {}, 0, {"s'", "!s'"}, 2); p->sT = allFunctions(p->sig, th ? vector<string>{"f", "s", "f'", "s'"} : vector<string>{"s", "f'", "s'"}); v.push_back(drv(p, 2)); }
    { auto p = prod("allPost", {"a"}, {"f", "s"}, {""}, {""}, {"", "s->a'"}, {}, {}, 0, {"s'", "!s'"}, 2); p->sT = allFunctions(p->sig, {"a'", "f'", "s'"}); v.push_back(drv(p, 2)); }
    return v;
});
}
