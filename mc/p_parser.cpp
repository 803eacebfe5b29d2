// P01 meaning of the slugsin format, P02 malformed specifications and calls are refused cleanly
#include "harness.hpp"
#include "family.hpp"
#include "strategy.hpp"
using namespace mc;
namespace {
vector<string> lines(const string &s) { vector<string> r; std::istringstream i(s); string l; while (std::getline(i, l)) r.push_back(l); return r; }
vector<string> words(const string &s) { vector<string> r; std::istringstream i(s); string l; while (i >> l) r.push_back(l); return r; }
// ---------------------------------------------------------------- reference reader of one formula (the documented EBNF)
enum Kind { PreIn = 1, PreOut = 2, PostIn = 4, PostOut = 8 };
struct Vars { vector<string> name; vector<int> kind; int nv() const { return name.size(); } };
Vars varsOf(const Sig &s) { Vars v; for (int post = 0; post < 2; post++) for (int i = 0; i < s.n(); i++) { v.name.push_back(s.name(i) + (post ? "'" : "")); v.kind.push_back(i < s.ni() ? (post ? PostIn : PreIn) : (post ? PostOut : PreOut)); } return v; }
struct Ref {
    const Vars &v; int allowed; const vector<string> &t; size_t p = 0; bool ok = true;
    Ref(const Vars &v_, int a, const vector<string> &t_) : v(v_), allowed(a), t(t_) {}
    TT bad() { ok = false; return TT(v.nv()); }
    static bool number(const string &s, long &n) { if (s.empty() || s.size() > 9) return false; n = 0; for (char c : s) { if (c < '0' || c > '9') return false; n = n * 10 + c - '0'; } return true; }
    TT expr(const vector<TT> *mem) {
        if (!ok || p >= t.size()) return bad();
        const string &w = t[p++]; int nv = v.nv();
        if (w == "!") return !expr(mem);
        if (w == "&" || w == "|" || w == "^") { TT a = expr(mem), b = expr(mem); return w == "&" ? a & b : w == "|" ? a | b : a ^ b; }
        if (w == "0" || w == "1") return TT(nv, w == "1");
        if (w == "$") { long n; if (p >= t.size() || !number(t[p++], n) || n < 1) return bad(); vector<TT> m; for (long i = 0; i < n && ok; i++) m.push_back(expr(&m)); return ok ? m.back() : bad(); }
        if (w == "?") { long n; if (p >= t.size() || !number(t[p++], n) || !mem || n >= (long)mem->size()) return bad(); return (*mem)[n]; }
        for (int i = 0; i < nv; i++) if (v.name[i] == w) { if (!(v.kind[i] & allowed)) return bad(); return TT::var(nv, i); }
        return bad();
    }
    bool parse(TT &r) { r = expr(nullptr); return ok && p == t.size(); }
};
bool refParse(const Vars &v, int allowed, const vector<string> &t, TT &r) { Ref p(v, allowed, t); return p.parse(r); }
const int ANY = 15;
// ---------------------------------------------------------------- token sequences
// all well-formed formulas of exactly `len` tokens, by grammar (avail = number of recallable elements, -1 outside buffers)
struct Gen {
    vector<string> leaves; vector<int> bufs; std::map<std::pair<int, int>, vector<vector<string>>> memo;
    const vector<vector<string>> &get(int len, int avail) {
        auto k = std::make_pair(len, avail); auto it = memo.find(k); if (it != memo.end()) return it->second;
        vector<vector<string>> r;
        if (len == 1) for (auto &l : leaves) r.push_back({l});
        if (len == 2) for (int i = 0; i < avail; i++) r.push_back({"?", S(i)});
        if (len >= 2) for (auto x : get(len - 1, avail)) { x.insert(x.begin(), "!"); r.push_back(x); }
        if (len >= 3) for (int a = 1; a + 1 < len; a++) { auto A = get(a, avail), B = get(len - 1 - a, avail); for (const char *o : {"&", "|", "^"}) for (auto &x : A) for (auto &y : B) { vector<string> q{o}; q.insert(q.end(), x.begin(), x.end()); q.insert(q.end(), y.begin(), y.end()); r.push_back(q); } }
        for (int n : bufs) if (len >= 2 + n) {
            std::function<void(int, int, vector<string>)> rec = [&](int i, int left, vector<string> cur) {
                if (i == n) { if (!left) r.push_back(cur); return; }
                int lo = i == n - 1 ? left : 1, hi = left - (n - 1 - i);
                for (int a = lo; a <= hi; a++) { auto A = get(a, i); for (auto &x : A) { auto c = cur; c.insert(c.end(), x.begin(), x.end()); rec(i + 1, left - a, c); } }
            };
            rec(0, len - 2, {"$", S(n)});
        }
        return memo[k] = r;
    }
};
typedef std::shared_ptr<vector<string>> Texts;
// A chunk of formulas is given as goals of one specification; CHECKTRANS tells for which goals a transition is a goal transition.
string chunk(const Sig &sig, const vector<string> &f, Ctx &c, bool env) {
    Vars v = varsOf(sig); string t = "[INPUT]\n" + join(sig.in, "\n") + "\n[OUTPUT]\n" + join(sig.out, "\n") + "\n[SYS_TRANS]\n0\n[" + (env ? "ENV" : "SYS") + "_LIVENESS]\n"; vector<TT> want;
    for (auto &x : f) { t += x + "\n"; TT w; if (!refParse(v, ANY, words(x), w)) return "internal: reference parser refuses " + x; want.push_back(w); }
    string in; for (unsigned k = 0; k < (1u << v.nv()); k++) { in += "CHECKTRANS\n"; for (int i = 0; i < v.nv(); i++) in += (k >> i & 1) ? "1\n" : "0\n"; } in += "QUIT\n";
    Run r = run({"--interactiveStrategy", putFile("s.slugsin", t)}, in); c.add(C_RUNS); c.add(C_TRACES, f.size()); c.add(C_NONTRIV, f.size()); c.add(C_STATES, f.size() << v.nv());
    if (r.threw || r.rc || r.verdict() < 0) return "well-formed formulas refused: " + r.what + r.err.substr(0, 400) + "\n" + t;
    string key = env ? "following liveness assumptions: " : "following liveness guarantees: "; vector<vector<char>> got; 
    for (auto &l : lines(r.out)) { size_t p = l.find(key); if (p == string::npos) continue; vector<char> g(f.size(), 0); string q = l.substr(p + key.size()); for (auto &ch : q) if (ch == ',') ch = ' '; if (q != "none") for (auto &w : words(q)) { size_t i = atol(w.c_str()); if (i >= g.size()) return "goal number out of range: " + l; g[i] = 1; } got.push_back(g); }
    if (got.size() != (1u << v.nv())) return "missing answers to CHECKTRANS";
    for (size_t i = 0; i < f.size(); i++) for (unsigned k = 0; k < got.size(); k++) if ((bool)got[k][i] != want[i].get(k)) return "formula '" + f[i] + "' is read as " + (got[k][i] ? "true" : "false") + " under assignment " + S(k) + " (bits: " + join(v.name, ",") + ")";
    c.sample(f[0] + " ... " + f.back()); return "";
}
Driver formulas(const string &id, const Sig &sig, const Texts &tx, bool env = false) {
    Driver d; d.id = id; const i64 B = 48; d.size = [=] { return ((i64)tx->size() + B - 1) / B; }; d.chunk = 4;
    auto part = [=](i64 i) { return vector<string>(tx->begin() + i * B, tx->begin() + std::min<i64>((i + 1) * B, tx->size())); };
    d.describe = [=](i64 i) { return join(part(i), "\n"); };
    d.body = [=](i64 i, Ctx &c) { string e = chunk(sig, part(i), c, env); if (!e.empty()) c.violation(hashKey(e), e); };
    return d;
}
Texts generate(const vector<string> &leaves, const vector<int> &bufs, int lo, int hi) {
    auto t = std::make_shared<vector<string>>(); Gen g; g.leaves = leaves; g.bufs = bufs;
    for (int l = lo; l <= hi; l++) for (auto &x : g.get(l, -1)) t->push_back(join(x, " "));
    return t;
}
// ---------------------------------------------------------------- layout: order, splitting, comments, white space
struct Sec { string name; vector<string> body; };
const char *PLAIN[] = {"ENV_INIT", "SYS_INIT", "ENV_TRANS", "SYS_TRANS", "ENV_LIVENESS", "SYS_LIVENESS"};
vector<Spec> layoutSpecs(bool deep) {
    auto f = prod("lay", {"a", "e"}, {"b"}, {"a; !e"}, {"b<->a; !b|!e", "b"}, {"a'->!e; b->e'", "!(a'&e'); a|e'"}, {"b'->a'; a->b'", "e'->!b'; a'->b'"}, {"a'", "!a'&b"}, 2, {"b'", "b'^a", "!b'&e"}, 2);
    vector<Spec> v; for (i64 i = 0; i < f->size(); i += deep ? 1 : 11) v.push_back(f->get(i)); return v;
}
vector<Sec> sections(const Spec &s) { vector<Sec> r; const vector<Fml> *p[] = {&s.envI, &s.sysI, &s.envT, &s.sysT, &s.A, &s.G}; for (int i = 0; i < 6; i++) { Sec q; q.name = PLAIN[i]; for (auto &f : *p[i]) q.body.push_back(f.txt); r.push_back(q); } return r; }
enum { L_PERM = 720, L_DECO = 9 };
string layout(const Spec &s, int perm, int deco) {
    vector<Sec> q = sections(s), o; vector<int> idx{0, 1, 2, 3, 4, 5}; for (int i = 6; i > 0; i--) { int k = perm % i; perm /= i; o.push_back(q[idx[k]]); idx.erase(idx.begin() + k); }
    vector<Sec> in{{"INPUT", s.sig.in}}, out{{"OUTPUT", s.sig.out}};
    if (deco == 1) { in = {{"INPUT", {s.sig.in[0]}}}; out.push_back({"INPUT", vector<string>(s.sig.in.begin() + 1, s.sig.in.end())}); }      // INPUT split around OUTPUT
    vector<Sec> all = in; all.insert(all.end(), out.begin(), out.end()); all.insert(all.end(), o.begin(), o.end());
    if (deco == 8) { all = out; all.insert(all.end(), in.begin(), in.end()); all.insert(all.end(), o.begin(), o.end()); }                 // OUTPUT first
    if (deco == 2 || deco == 3) {      // every section split in two, the halves apart
        vector<Sec> a(all.begin(), all.begin() + 2), b; for (size_t i = 2; i < all.size(); i++) { Sec x = all[i], y = all[i]; size_t h = (x.body.size() + (deco == 2)) / 2; x.body.resize(h); y.body.erase(y.body.begin(), y.body.begin() + h); a.push_back(x); b.push_back(y); }
        all = a; all.insert(all.end(), b.begin(), b.end());
    }
    if (deco == 7) { vector<Sec> z; for (auto &x : all) { z.push_back(x); z.push_back({"ENV_TRANS", {}}); z.push_back({"SYS_INIT", {}}); } all = z; } // empty sections between
    string nl = deco == 4 ? "\r\n" : "\n", r = deco == 5 ? "# [SYS_TRANS]\n   # 0\n\n" : "";
    for (auto &x : all) {
        r += (deco == 6 ? " \t[" : "[") + x.name + "]" + (deco == 6 ? "  " : "") + nl;
        for (auto y : x.body) { if (deco == 5) r += "\n#0\n \t \n"; if (deco == 6) { string z; for (char c : y) z += c == ' ' ? (string)" \t " : string(1, c); y = "\t " + z + " \t"; } r += y + nl; }
        if (deco == 5) r += "# 0\n";
    }
    if (deco == 0 || deco == 4) while (!r.empty() && (r.back() == '\n' || r.back() == '\r')) r.pop_back();      // no line end at the end of the file
    return r;
}
vector<Driver> p01(const string &tier) {
    vector<Driver> v; bool T = tier == "thorough"; Sig s; s.in = {"a"}; s.out = {"b"};
    v.push_back(formulas("formulas", s, generate({"a", "b", "a'", "b'", "0", "1"}, {1, 2, 3}, 1, T ? 6 : 5)));
    v.push_back(formulas("deeper", s, generate({"a", "b'"}, {1, 2, 3}, T ? 7 : 6, T ? 9 : 7), true));
    v.push_back(formulas("buffers", s, generate({"a'"}, {1, 2, 3, 4}, T ? 10 : 8, T ? 12 : 10)));
    { // longer buffers: every pair of recalls out of n stored elements
        auto t = std::make_shared<vector<string>>(); const char *el[] = {"a", "b'", "^ a' b", "! a", "& b a'", "| b' a", "a'", "! b'", "^ a b", "b", "& a b'", "| a' b"};
        for (int n = 3; n <= 12; n++) for (int i = 0; i < n - 1; i++) for (int j = 0; j < n - 1; j++) { string f = "$ " + S(n); for (int k = 0; k < n - 1; k++) f += string(" ") + el[k % 12]; t->push_back(f + " ^ ? " + S(i) + " & ? " + S(j) + " a"); t->push_back("& " + f + " | ? " + S(i) + " ! ? " + S(j) + " $ 2 b' | ? 0 a"); }
        v.push_back(formulas("recalls", s, t));
    }
    { // names that look like parts of other names or of operators
        Sig q; q.in = {"x", "xx", "x@0.0.3"}; q.out = {"!x", "00"}; auto t = std::make_shared<vector<string>>(); Vars w = varsOf(q);
        for (auto &a : w.name) { t->push_back(a); for (auto &b : w.name) { t->push_back("^ " + a + " ! " + b); t->push_back("$ 2 " + a + " & ? 0 " + b); } }
        v.push_back(formulas("names", q, t));
    }
    auto specs = std::make_shared<vector<Spec>>(layoutSpecs(T)); Driver d; d.id = "layout"; int P = T ? L_PERM : 72;
    // quick: 72 orders (every section first/second, rest rotated); thorough: all 720
    auto perm = [=](i64 k) { return T ? (int)k : (int)(k * 10 + k % 10); };
    d.size = [=] { return (i64)specs->size() * P * L_DECO; };
    auto text = [=](i64 i) { return layout((*specs)[i / (P * L_DECO)], perm(i / L_DECO % P), i % L_DECO); }; d.describe = text;
    d.body = [=](i64 i, Ctx &c) {
        Spec sp = (*specs)[i / (P * L_DECO)]; string t = text(i), e; Game g(sp); g.solve();
        if (i % L_DECO == 1) {}   // declaration order a, b, e: names are mapped below
        Run r = run({"--explicitStrategy", putFile("s.slugsin", t)}); c.add(C_RUNS); c.add(C_TRACES); c.add(C_STATES, g.refStates); c.add(C_TRANS, g.refTrans);
        bool real = g.realizableClassic(); c.add(real ? C_A : C_B); if (real) c.add(C_NONTRIV);
        if (r.threw || r.rc) e = "refused: " + r.what + r.err; else if (r.verdict() != (int)real) e = "wrong verdict";
        else if (real) { Auto a = parseText(r.out, preNames(sp.sig)); StratOpts o; e = a.ok ? checkStrategy(g, a, o, 0, 0) : a.why; }
        if (!e.empty()) c.violation(hashKey(t), e + "\n" + t);
    };
    v.push_back(d); return v;
}
Reg r1("P01", p01);

// ---------------------------------------------------------------- P02
// refused: error message, exit code 1, no verdict, nothing on standard output
string refused(const Run &r) {
    if (r.threw) return "an exception escapes: " + r.what; if (r.verdict() >= 0) return "a verdict is given: " + r.err.substr(0, 300); if (r.rc != 1) return "exit code " + S(r.rc);
    if (r.err.find("Error") == string::npos) return "no error message"; if (!r.out.empty()) return "something is printed on standard output: " + r.out.substr(0, 200); return "";
}
const char *SECN[] = {"ENV_INIT", "SYS_INIT", "ENV_TRANS", "SYS_TRANS", "ENV_LIVENESS", "SYS_LIVENESS"};
const int SECA[] = {PreIn, PreIn | PreOut, PreIn | PreOut | PostIn, ANY, ANY, ANY};
string oneLine(const string &line, int sec, int &no) { string t = "[INPUT]\na\n\n[OUTPUT]\nb\n[" + string(SECN[sec]) + "]\n1\n"; no = 1 + std::count(t.begin(), t.end(), '\n'); return t + line + "\n"; }
string judgeLine(const string &line, int sec, Ctx &c, int extra) {
    Sig s; s.in = {"a"}; s.out = {"b"}; Vars v = varsOf(s); TT w; bool good = refParse(v, SECA[sec], words(line), w); int no; string t = oneLine(line, sec, no);
    vector<string> a; if (extra) a.push_back(extra == 1 ? "--explicitStrategy" : "--counterStrategy"); a.push_back(putFile("s.slugsin", t));
    Run r = run(a); c.add(C_RUNS); c.add(C_TRACES); string e;
    if (good) { c.add(C_A); if (r.threw || r.rc || r.verdict() < 0) e = "a well-formed formula is refused: " + r.what + r.err.substr(0, 300); }
    else { c.add(C_B); c.add(C_NONTRIV); e = refused(r); if (e.empty() && r.err.find("line " + S(no)) == string::npos) e = "the message does not name line " + S(no) + ": " + r.err; if (e.empty()) c.sample(line + "  =>  " + r.err.substr(r.err.find("Error"))); }
    return e.empty() ? "" : e + "\nline '" + line + "' in section " + SECN[sec] + "\n" + t;
}
Driver lineDriver(const string &id, const vector<string> &alpha, int lo, int hi, const vector<int> &secs) {
    Driver d; d.id = id; i64 N = 0; vector<i64> base; for (int l = lo; l <= hi; l++) { base.push_back(N); i64 k = 1; for (int i = 0; i < l; i++) k *= alpha.size(); N += k; }
    i64 Q = secs.size(); d.size = [=] { return N * Q; }; d.chunk = 64;
    auto text = [=](i64 i) { int l = lo; while (l < hi && i >= base[l - lo + 1]) l++; i -= base[l - lo]; string r; for (int k = 0; k < l; k++) { r += (k ? " " : "") + alpha[i % alpha.size()]; i /= alpha.size(); } return r; };
    d.describe = [=](i64 i) { return string(SECN[secs[i % Q]]) + ": " + text(i / Q); };
    d.body = [=](i64 i, Ctx &c) { string e = judgeLine(text(i / Q), secs[i % Q], c, i / Q % 7 == 3 ? 1 : i / Q % 7 == 5 ? 2 : 0); if (!e.empty()) c.violation(hashKey(d.describe(i)), e); };
    return d;
}
struct Bad { string text; vector<string> args; bool accept = false; bool noFile = false; };
// broken files: each made from a good one by one edit at every place
vector<Bad> brokenFiles() {
    vector<Bad> r; vector<string> base = lines("[INPUT]\na\ne\n[OUTPUT]\nb\nc\n[ENV_INIT]\na\n[SYS_INIT]\nb\n[ENV_TRANS]\n| a' e'\n[SYS_TRANS]\n! & b' c'\n[ENV_LIVENESS]\na'\n[SYS_LIVENESS]\nb'\nc'\n");
    vector<vector<string>> modes{{}, {"--explicitStrategy"}, {"--sysInitRoboticsSemantics"}, {"--counterStrategy"}, {"--interactiveStrategy"}, {"--explicitStrategy", "--jsonOutput"}, {"--extractExplicitPermissiveStrategy"}, {"--analyzeInitialPositions"}, {"--computeCNFFormOfTheSpecification"}, {"--analyzeAssumptions"}, {"--analyzeInterleaving"}};
    auto put = [&](const vector<string> &L) { for (auto &m : modes) { Bad b; b.text = join(L, "\n") + "\n"; b.args = m; r.push_back(b); } };
    for (const char *h : {"[INPUTS]", "[input]", "[INPUT", "[]", "[", "[SYS_TRANS] 1", "[SYS TRANS]", "[ENV_LIVENESS]]", "[OUTPUT]x", "[SYS_FAIRNESS]", "[[INPUT]]"}) for (size_t i = 0; i <= base.size(); i++) { auto L = base; L.insert(L.begin() + i, h); put(L); }
    for (const char *h : {"1", "a", "! a", "x"}) { auto L = base; L.insert(L.begin(), h); put(L); L.insert(L.begin(), "# comment"); put(L); }
    for (const char *d : {"a", "b", "a'", "b'", "c'", "e"}) for (int i : {1, 2, 3, 4, 5, 6}) { auto L = base; L.insert(L.begin() + i, d); put(L); }
    for (size_t i = 7; i < base.size(); i++) if (base[i][0] != '[') for (const char *x : {"q", "a ''", "& a", "a a", "b' b'", "$ 0", "$ 2 a", "? 0", "$ 1 ? 0", "$ -1 a", "$ a a", "$", "! ", "( a )", "a & a", "&", "A", "a''", "true", "01", "$ 99999999999 a", "$ 4294967295 a", "$ 2 a ? 4294967295", "$ 1 $ 2 a ? 1", "$ 2 $ 2 a a ? 1", "$ 3 a ? 0 & ? 1 ? 2", "? -1", "$ 1.5 a"}) { auto L = base; L[i] = x; put(L); }
    for (const char *x : {"b", "b'", "a'", "c'"}) { auto L = base; L[7] = x; put(L); }                 // ENV_INIT
    for (const char *x : {"a'", "b'", "& b e'"}) { auto L = base; L[9] = x; put(L); }                // SYS_INIT
    for (const char *x : {"b'", "| a' c'", "! ! b'"}) { auto L = base; L[11] = x; put(L); }         // ENV_TRANS
    return r;
}
vector<vector<string>> allOptionSets(int k) {
    static const char *o[] = {"--explicitStrategy", "--symbolicStrategy", "--simpleSymbolicStrategy", "--jsonOutput", "--sysInitRoboticsSemantics", "--computeWeakenedSafetyAssumptions", "--biasForAction", "--computeCNFFormOfTheSpecification", "--counterStrategy", "--simpleRecovery", "--fixedPointRecycling", "--interactiveStrategy", "--analyzeInterleaving", "--analyzeInitialPositions", "--restrictToReachableStates", "--analyzeAssumptions", "--analyzeSafetyLivenessInteraction", "--computeInterestingRunOfTheSystem", "--computeAbstractWinningTrace", "--extractExplicitPermissiveStrategy", "--cooperativeGR1Strategy", "--twoDimensionalCost", "--nonDeterministicMotion", "--computeIncompleteInformationEstimator", "--IROSfastslow"};
    vector<vector<string>> r; for (auto &s : subsets(25, k)) { bool sorted = true; for (size_t i = 1; i < s.size(); i++) if (s[i] < s[i - 1]) sorted = false; if (!sorted) continue; vector<string> a; for (int i : s) a.push_back(o[i]); r.push_back(a); }
    return r;
}
bool hasOpt(const vector<string> &a, const char *o) { return std::find(a.begin(), a.end(), string(o)) != a.end(); }
// options that neither change the game nor read further files: the verdict must be the ordinary one
bool keepsGame(const vector<string> &a) { for (const char *o : {"--cooperativeGR1Strategy", "--twoDimensionalCost", "--nonDeterministicMotion", "--computeIncompleteInformationEstimator", "--IROSfastslow"}) if (hasOpt(a, o)) return false; return true; }
bool givesVerdict(const vector<string> &a) { for (const char *o : {"--analyzeInterleaving", "--computeCNFFormOfTheSpecification", "--analyzeSafetyLivenessInteraction", "--computeWeakenedSafetyAssumptions", "--analyzeAssumptions"}) if (hasOpt(a, o)) return false; return true; }
// the documented strategy options (main.cpp's usage text): these sets are permissible
bool strategySet(const vector<string> &a) {
    int game = 0, out = 0; bool rob = hasOpt(a, "--sysInitRoboticsSemantics"), rec = hasOpt(a, "--simpleRecovery"), js = hasOpt(a, "--jsonOutput"), ex = hasOpt(a, "--explicitStrategy"), sy = hasOpt(a, "--symbolicStrategy"), ss = hasOpt(a, "--simpleSymbolicStrategy");
    for (auto &o : a) { if (o == "--fixedPointRecycling" || o == "--biasForAction" || o == "--cooperativeGR1Strategy") game++; else if (o == "--explicitStrategy" || o == "--symbolicStrategy" || o == "--simpleSymbolicStrategy") out++; else if (o != "--sysInitRoboticsSemantics" && o != "--simpleRecovery" && o != "--jsonOutput") return false; }
    (void)rob; (void)sy; (void)ss; if (game > 1 || out > 1) return false; if (js && !ex) return false; if (rec && !out) return false; return true;
}
// The three modes with readers of their own: every literal in every section is accepted exactly where it is allowed,
// and every corruption of a good file is refused
struct Reader { string opt; vector<std::pair<string, string>> vars; vector<std::pair<string, string>> secs; };   // secs: name, letters allowed (capital: next value)
vector<Reader> readers() {
    return {{"--IROSfastslow", {{"INPUT", "a"}, {"OUTPUT_F", "f"}, {"OUTPUT_S", "s"}}, {{"ENV_INIT", "a"}, {"SYS_INIT", "afs"}, {"ENV_TRANS", "afsA"}, {"SYS_TRANS", "afsAFS"}, {"ENV_LIVENESS", "afsAFS"}, {"SYS_LIVENESS", "afsAFS"}}},
            {"--computeIncompleteInformationEstimator", {{"OBSERVABLE_INPUT", "o"}, {"UNOBSERVABLE_INPUT", "u"}, {"CONTROLLABLE_INPUT", "c"}, {"OUTPUT", "e"}}, {{"ENV_INIT", "ouc"}, {"SYS_INIT", "ouce"}, {"ENV_TRANS", "ouceOUC"}, {"SYS_TRANS", "ouceOUCE"}}},
            {"--nonDeterministicMotion", {{"INPUT", "i"}, {"MOTION STATE OUTPUT", "m"}, {"MOTION CONTROLLER OUTPUT", "t"}, {"OTHER OUTPUT", "o"}}, {{"ENV_INIT", "imo"}, {"SYS_INIT", "imo"}, {"ENV_TRANS", "imoIMO"}, {"SYS_TRANS", "imoIMTO"}, {"ENV_LIVENESS", "imoI"}, {"SYS_LIVENESS", "imoIMTO"}}},
            {"--analyzeInitialPositions", {}, {}}, {"--computeAbstractWinningTrace", {}, {}}, {"--computeInterestingRunOfTheSystem", {}, {}}};
}
struct ReaderCase { int reader; string text; bool ok; int line; };   // line: to be named in the message, 0: any, -1: found out only after results have been printed
vector<ReaderCase> readerCases() {
    vector<ReaderCase> r; auto R = readers();
    for (int q = 0; q < 3; q++) {
        auto &rd = R[q]; vector<string> base; for (auto &v : rd.vars) { base.push_back("[" + v.first + "]"); base.push_back(v.second); } size_t decl = base.size();
        for (auto &s : rd.secs) { base.push_back("[" + s.first + "]"); base.push_back(s.second.substr(0, 1)); }
        auto put = [&](const vector<string> &L, bool ok, int line) { r.push_back({q, join(L, "\n") + "\n", ok, line}); };
        put(base, true, 0);
        for (size_t k = 0; k < rd.secs.size(); k++) {
            size_t at = decl + 2 * k + 1; auto with = [&](const string &x, bool ok) { auto L = base; L[at] = x; put(L, ok, ok ? 0 : (int)at + 1); L = base; L.insert(L.begin() + at + 1, x); put(L, ok, ok ? 0 : (int)at + 2); };
            string any = rd.secs[k].second.substr(0, 1);
            for (auto &v : rd.vars) for (int post = 0; post < 2; post++) { char ch = post ? toupper(v.second[0]) : v.second[0]; bool ok = rd.secs[k].second.find(ch) != string::npos; string l = v.second + (post ? "'" : "");
                for (string x : {l, "! " + l, "& 1 " + l, "| " + l + " 0", "^ " + l + " " + l, "$ 2 " + l + " ! ? 0", "$ 1 " + l}) with(x, ok); }
            for (string x : {"0", "1", "  ^ 1\t0 ", "$ 1 1", "$ 2 0 ? 0", "$ 3 0 ! ? 0 ? 1"}) with(x, true);
            for (string x : {"q", "q'", "& 1", "1 1", "!", "&", "^ 0", "( 1 )", "$", "$ 0", "$ 2 1", "$ x 1", "? 0", "?", "$ 1 ? 0", "$ 2 1 ? 1", "$ -1 1", "$ 2 1 ? x", "true", "A", "01", "? -1", "$ 4294967295 1"}) { with(x, false); with(x + " " + any, x == "& 1" || x == "!" || x == "^ 0" || x == "$ 2 1"); }
        }
        for (string h : {"[INPUTS]", "[input]", "[INPUT", "[]", "[", "[OUTPUT]x", "[SYS_TRANS] 1", "[MOTION]", "[SYS_FAIRNESS]", "[ OUTPUT ]"}) for (size_t i = 0; i <= base.size(); i++) { auto L = base; L.insert(L.begin() + i, h); put(L, false, 0); }
        for (string h : {"1", "a", "o", "x", "! m"}) { auto L = base; L.insert(L.begin(), h); put(L, false, 1); L.insert(L.begin(), "# comment"); put(L, false, 2); L.insert(L.begin(), ""); put(L, false, 3); }
        for (auto &v : rd.vars) for (int post = 0; post < 2; post++) for (size_t i = 1; i < decl; i += 2) { auto L = base; L.insert(L.begin() + i + 1, v.second + (post ? "'" : "")); put(L, false, 0); }
    }
    // a BDD of regions: a line without a file name, a file that does not exist, a name given twice, a name used before it is given
    string d = "[INPUT]\ni\n[MOTION STATE OUTPUT]\nm\n[MOTION CONTROLLER OUTPUT]\nt\n[OTHER OUTPUT]\no\n", b = "[ABSTRACTION_REGION_BDDS]\n";
    r.push_back({2, d + b + "R @R\n[SYS_TRANS]\nR'\n", true, 0}); r.push_back({2, d + b + "R @R\nQ @R\n[SYS_TRANS]\n| R' Q\n", true, 0});
    r.push_back({2, d + b + "R\n", false, 0}); r.push_back({2, d + b + "R @R.missing\n", false, 0}); r.push_back({2, d + b + "R @R\nR @R\n", false, 0}); r.push_back({2, d + "[SYS_TRANS]\nR'\n" + b + "R @R\n", false, 10}); r.push_back({2, d + b + "R @R\n[SYS_TRANS]\nR''\n", false, 12}); r.push_back({2, d + b + "R @R\n[SYS_TRANS]\nr\n", false, 12});
    // integers of structured specifications whose bits are not all there
    for (string x : {"x@0.0.3", "x@0.0.1\nx@0.0.3", "y@0.0.4\ny@1"}) { r.push_back({1, "[OBSERVABLE_INPUT]\no@0.0.1\n[OUTPUT]\n" + x + "\n", false, -1}); r.push_back({1, "[OBSERVABLE_INPUT]\n" + x + "\n[OUTPUT]\ne@0.0.1\n", false, -1}); }
    r.push_back({1, "[OBSERVABLE_INPUT]\no@0.0.1\n[OUTPUT]\nx@0.0.3\nx@1\n", true, 0}); r.push_back({1, "[OBSERVABLE_INPUT]\no@0.0.3\no@1\n[OUTPUT]\nx@1\nx@0.0.3\n", true, 0});
    for (string x : {"x@0.0", "x@0.a.1", "x@0.0.b", "x@1.0.1", "x@0.0.1.2"}) r.push_back({1, "[OBSERVABLE_INPUT]\no@0.0.1\n[OUTPUT]\n" + x + "\n", false, -1});
    // groups of variables that are not as the structured slugs compiler writes them
    for (string x : {"x@1", "x@1\nx@2", "x@y", "x@0.0.3\nx@2", "x@1\nx@0.0.3", "x@0.0.3\nx@1\nx@3", "x@0.0.3\nx@0.0.2", "x@0.", "x@0.1", "x@0.1.", "x@0..1", "x@0.a.3", "b@0.0.3\nx@1"}) for (int q : {3, 4, 5}) for (int place = 0; place < 2; place++) {
        bool lonely = x == "x@1" || x == "x@1\nx@2" || x == "b@0.0.3\nx@1"; if (lonely && q > 3) continue;
        r.push_back({q, string("[INPUT]\na\n") + (place ? x + "\n" : "") + "[OUTPUT]\nc\n" + (place ? "" : x + "\n") + "[SYS_TRANS]\n| c' a'\n| c a\n[SYS_LIVENESS]\nc'\n", false, -1});
    }
    return r;
}
vector<Driver> p02(const string &tier) {
    vector<Driver> v; bool T = tier == "thorough";
    vector<string> al{"!", "&", "^", "$", "?", "a", "b'", "0", "1", "2", "a'"}, big{"!", "&", "|", "^", "$", "?", "a", "b", "a'", "b'", "0", "1", "2", "3", "-1", "x", "a''", "("};
    v.push_back(lineDriver("lines-short", big, 1, T ? 4 : 3, {0, 1, 2, 3, 4, 5}));
    v.push_back(lineDriver("lines", al, 4, T ? 5 : 4, {3}));
    v.push_back(lineDriver("buffers", {"$", "?", "0", "1", "2", "&", "a"}, 5, T ? 7 : 5, {3}));
    auto bf = std::make_shared<vector<Bad>>(brokenFiles()); Driver d; d.id = "files"; d.size = [=] { return (i64)bf->size(); };
    d.describe = [=](i64 i) { return "# " + join((*bf)[i].args, " ") + "\n" + (*bf)[i].text; };
    d.body = [=](i64 i, Ctx &c) { auto a = (*bf)[i].args; a.push_back(putFile("s.slugsin", (*bf)[i].text)); Run r = run(a, "QUIT\n"); c.add(C_RUNS); c.add(C_TRACES); c.add(C_NONTRIV); c.add(C_B); string e = refused(r); if (!e.empty()) c.violation(hashKey(d.describe(i)), e + "\n" + d.describe(i)); };
    v.push_back(d);
    auto rc = std::make_shared<vector<ReaderCase>>(readerCases()); Driver g; g.id = "readers"; g.size = [=] { return (i64)rc->size(); }; g.describe = [=](i64 i) { return "# " + readers()[(*rc)[i].reader].opt + "\n" + (*rc)[i].text; };
    g.body = [=](i64 i, Ctx &c) {
        auto &k = (*rc)[i]; string t = k.text, e; const string one = ".ver DDDMP-2.0\n.mode A\n.varinfo 0\n.nnodes 1\n.nvars 1\n.nsuppvars 0\n.ids \n.permids \n.nroots 1\n.rootids 1\n.nodes\n1 T 1 0 0\n.end\n"; vector<string> a{readers()[k.reader].opt};
        if (k.reader == 2) { string R = putFile("region.bdd", one); for (size_t p; (p = t.find("@R")) != string::npos;) t.replace(p, 2, R); }
        a.push_back(putFile("s.slugsin", t)); if (k.reader == 2) a.push_back(putFile("robot.bdd", one));
        Run r = run(a, "QUIT\n"); c.add(C_RUNS); c.add(C_TRACES); c.add(k.ok ? C_A : C_B); if (!k.ok) c.add(C_NONTRIV);
        if (k.ok) { if (r.threw || r.rc != 0) e = "a well-formed file is refused: " + r.what + r.err.substr(0, 300); }
        else { if (k.line < 0) r.out.clear(); e = r.verdict() >= 0 && k.line < 0 && !r.threw && r.rc == 1 && r.err.find("Error") != string::npos ? "" : refused(r); if (e.empty() && k.line > 0 && r.err.find("line " + S(k.line)) == string::npos) e = "the message does not name line " + S(k.line) + ": " + r.err; }
        if (!e.empty()) c.violation(hashKey(g.describe(i)), e + "\n" + a[0] + "\n" + t);
    };
    v.push_back(g);
    // option sets and file arguments
    auto os = std::make_shared<vector<vector<string>>>(allOptionSets(T ? 5 : 4)); Driver o; o.id = "options"; o.size = [=] { return (i64)os->size(); }; o.chunk = 64; o.describe = [=](i64 i) { return join((*os)[i], " "); };
    o.body = [=](i64 i, Ctx &c) {
        auto a = (*os)[i]; string none = scratch() + "/does-not-exist", dir = scratch(), e; c.add(C_TRACES);
        // a missing specification file: refused whether or not the option set is permissible
        auto A = a; A.push_back(none); Run r = run(A); c.add(C_RUNS); e = refused(r); if (!e.empty()) e = "missing input file: " + e;
        bool perm = r.err.find("option combination") == string::npos; if (e.empty() && strategySet(a) && !perm) e = "a documented combination of options is refused"; c.add(perm ? C_A : C_B);
        if (e.empty()) { Run q = run(a); c.add(C_RUNS); e = refused(q); if (!e.empty()) e = "no input file: " + e; }
        if (perm && e.empty()) { c.add(C_NONTRIV); auto B = a; B.push_back(dir); Run q = run(B, "QUIT\n"); c.add(C_RUNS); e = refused(q); if (!e.empty()) e = "a directory as input file: " + e; }
        if (perm && e.empty() && !hasOpt(a, "--IROSfastslow") ) { string f = putFile("s.slugsin", "[INPUT]\na\n[OUTPUT]\nb\n[SYS_LIVENESS]\nb'\n"); auto B = a; for (int k = 0; k < 4; k++) B.push_back(f); B.push_back(scratch() + "/out"); Run q = run(B, "QUIT\n"); c.add(C_RUNS); e = refused(q); if (!e.empty()) e = "too many files: " + e; }
        if (perm && e.empty() && strategySet(a) && (hasOpt(a, "--explicitStrategy") || hasOpt(a, "--symbolicStrategy") || hasOpt(a, "--simpleSymbolicStrategy"))) {
            string f = putFile("s.slugsin", "[INPUT]\na\n[OUTPUT]\nb\n[SYS_LIVENESS]\nb'\n"); auto B = a; B.push_back(f); B.push_back(scratch() + "/no/such/dir/out"); Run q = run(B); c.add(C_RUNS);
            if (q.threw) e = "output file cannot be opened: an exception escapes: " + q.what; else if (q.rc != 1 || q.err.find("Error") == string::npos) e = "output file cannot be opened: rc " + S(q.rc) + ", " + q.err.substr(0, 200);
        }
        if (!e.empty()) c.violation(hashKey(o.describe(i)), e + "\noptions: " + o.describe(i));
    };
    v.push_back(o);
    // unknown parameters anywhere
    Driver u; u.id = "parameters"; auto one = std::make_shared<vector<vector<string>>>(); for (const char *x : {"-", "--", "--explicit", "--explicitStrategies", "-explicitStrategy", "--EXPLICITSTRATEGY", "-x", "--explicitStrategy=", "--help"}) for (auto &s : allOptionSets(1)) for (int pos = 0; pos < 3; pos++) { vector<string> a = s; a.push_back("@"); a.insert(a.begin() + std::min<int>(pos, a.size()), x); one->push_back(a); }
    u.size = [=] { return (i64)one->size(); }; u.describe = [=](i64 i) { return join((*one)[i], " "); };
    u.body = [=](i64 i, Ctx &c) { auto a = (*one)[i]; for (auto &x : a) if (x == "@") x = putFile("s.slugsin", "[INPUT]\na\n[OUTPUT]\nb\n"); Run r = run(a, "QUIT\n"); c.add(C_RUNS); c.add(C_TRACES); c.add(C_B); c.add(C_NONTRIV); string e = refused(r); if (!e.empty()) c.violation(hashKey(u.describe(i)), e + "\n" + u.describe(i)); };
    v.push_back(u);
    return v;
}
Reg r2("P02", p02);
}
