// O01 the only file written is the named output file, and it is complete or the failure is reported
#include "harness.hpp"
#include "family.hpp"
#include "strategy.hpp"
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <signal.h>
#include <unistd.h>
using namespace mc;
// ---------------------------------------------------------------- recorder of file-changing calls (also those made inside libstdc++)
namespace { struct Rec { bool on = false; vector<string> wr; } rec;
void note(const char *what, const char *p) { if (rec.on) rec.wr.push_back(string(what) + " " + p); }
template<class F> F next(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
bool wmode(const char *m) { return strpbrk(m, "wa+") != nullptr; }
bool wflag(int f) { return (f & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC | O_APPEND)) != 0; } }
extern "C" {
FILE *fopen(const char *p, const char *m) { static auto f = next<FILE *(*)(const char *, const char *)>("fopen"); if (wmode(m)) note("open", p); return f(p, m); }
FILE *fopen64(const char *p, const char *m) { static auto f = next<FILE *(*)(const char *, const char *)>("fopen64"); if (wmode(m)) note("open", p); return f(p, m); }
int open(const char *p, int fl, ...) { static auto f = next<int (*)(const char *, int, ...)>("open"); va_list a; va_start(a, fl); int m = (fl & O_CREAT) ? va_arg(a, int) : 0; va_end(a); if (wflag(fl)) note("open", p); return f(p, fl, m); }
int open64(const char *p, int fl, ...) { static auto f = next<int (*)(const char *, int, ...)>("open64"); va_list a; va_start(a, fl); int m = (fl & O_CREAT) ? va_arg(a, int) : 0; va_end(a); if (wflag(fl)) note("open", p); return f(p, fl, m); }
int creat(const char *p, mode_t m) { static auto f = next<int (*)(const char *, mode_t)>("creat"); note("open", p); return f(p, m); }
int unlink(const char *p) { static auto f = next<int (*)(const char *)>("unlink"); note("unlink", p); return rec.on ? 0 : f(p); }
int remove(const char *p) { static auto f = next<int (*)(const char *)>("remove"); note("remove", p); return rec.on ? 0 : f(p); }
int rename(const char *p, const char *q) { static auto f = next<int (*)(const char *, const char *)>("rename"); note("rename", p); return rec.on ? 0 : f(p, q); }
int mkdir(const char *p, mode_t m) { static auto f = next<int (*)(const char *, mode_t)>("mkdir"); note("mkdir", p); return rec.on ? 0 : f(p, m); }
int truncate(const char *p, off_t o) { static auto f = next<int (*)(const char *, off_t)>("truncate"); note("truncate", p); return rec.on ? 0 : f(p, o); }
int system(const char *p) { static auto f = next<int (*)(const char *)>("system"); note("system", p); return rec.on ? 0 : f(p); }
FILE *popen(const char *p, const char *m) { static auto f = next<FILE *(*)(const char *, const char *)>("popen"); note("popen", p); return rec.on ? nullptr : f(p, m); }
}
namespace {
struct Recorded { Run r; vector<string> wr; };
Recorded recorded(const vector<string> &a, const string &in = "") { Recorded x; rec.wr.clear(); rec.on = true; x.r = run(a, in); rec.on = false; x.wr = rec.wr; return x; }
// ---------------------------------------------------------------- the option sets slugs permits (found by asking it)
vector<vector<string>> permitted() {
    static const char *o[] = {"--explicitStrategy", "--symbolicStrategy", "--simpleSymbolicStrategy", "--jsonOutput", "--sysInitRoboticsSemantics", "--computeWeakenedSafetyAssumptions", "--biasForAction", "--computeCNFFormOfTheSpecification", "--counterStrategy", "--simpleRecovery", "--fixedPointRecycling", "--interactiveStrategy", "--analyzeInterleaving", "--analyzeInitialPositions", "--restrictToReachableStates", "--analyzeAssumptions", "--analyzeSafetyLivenessInteraction", "--computeInterestingRunOfTheSystem", "--computeAbstractWinningTrace", "--extractExplicitPermissiveStrategy", "--cooperativeGR1Strategy", "--twoDimensionalCost"};
    vector<vector<string>> r;
    for (auto &s : subsets(22, 5)) { bool sorted = true; for (size_t i = 1; i < s.size(); i++) if (s[i] < s[i - 1]) sorted = false; if (!sorted) continue; vector<string> a; for (int i : s) a.push_back(o[i]); Run q = run(a); if (q.err.find("option combination") == string::npos) r.push_back(a); }
    return r;
}
bool hasOpt(const vector<string> &a, const char *o) { return std::find(a.begin(), a.end(), string(o)) != a.end(); }
bool symbolic(const vector<string> &a) { return hasOpt(a, "--symbolicStrategy") || hasOpt(a, "--simpleSymbolicStrategy"); }
bool takesOutput(const vector<string> &a) { return symbolic(a) || hasOpt(a, "--explicitStrategy") || hasOpt(a, "--extractExplicitPermissiveStrategy"); }
vector<Spec> specs(bool deep) {
    vector<Spec> v; auto add = [&](FamilyPtr f, i64 step) { for (i64 i = 0; i < f->size(); i += step) v.push_back(f->get(i)); };
    add(prod("io", {"a"}, {"b"}, {"", "a"}, {"", "!b"}, {"", "b->a'", "0"}, {"", "b'<->a'", "0"}, {"a'"}, 1, {"b'", "!b'&a"}, 1), deep ? 1 : 5);
    add(prod("io2", {"a"}, {"b", "c"}, {""}, {"b"}, {"", "a'<->b"}, {"!(b'&c')", "b'->c'"}, {"a'"}, 1, {"b'", "c'", "b&c"}, 2), deep ? 1 : 5);
    return v;
}
struct Case { vector<string> opt; Spec spec; };
vector<Case> cases(bool deep) { vector<Case> r; auto P = permitted(); auto S_ = specs(deep); for (auto &p : P) for (auto &s : S_) r.push_back({p, s}); return r; }
string show(const vector<string> &o, const Spec &s) { return "# " + join(o, " ") + "\n" + s.text(); }
const string COST = "1 1 <\n1 & b b'\n";
Driver filesDriver(bool deep) {
    auto cs = std::make_shared<vector<Case>>(); Driver d; d.id = "written-files"; d.size = [=] { if (cs->empty()) *cs = cases(deep); return (i64)cs->size(); }; d.describe = [=](i64 i) { return show((*cs)[i].opt, (*cs)[i].spec); };
    d.body = [=](i64 i, Ctx &c) {
        auto &k = (*cs)[i]; string in = putFile("in.slugsin", k.spec.text()), cost = putFile("in.cost", COST), out = scratch() + "/out.strategy", e; bool cst = hasOpt(k.opt, "--twoDimensionalCost");
        for (int named = takesOutput(k.opt) ? 0 : 1; named < 2 && e.empty(); named++) {
            // named = 0: an output file is named; 1: none is named (standard output)
            bool nm = named == 0; if (!nm && symbolic(k.opt)) continue; unlink(out.c_str()); auto a = k.opt; a.push_back(in); if (cst) a.push_back(cost); if (nm) a.push_back(out);
            Recorded r = recorded(a, "XGETINIT\nQUIT\n"); c.add(C_RUNS); c.add(C_TRACES); string got, txt;
            if (r.r.threw || (r.r.rc && r.r.err.find("Error") == string::npos)) e = "run failed: " + r.r.what + r.r.err.substr(0, 300);
            for (auto &w : r.wr) if (w != "open " + out && w != "open /dev/null" && e.empty() && !(cst && w == "open /tmp/slugs_cost_conflict.dot")) e = "touches another file: " + w;
            if (e.empty() && !nm && !r.wr.empty() && !(cst && r.r.rc)) e = "a file is written although none is named: " + r.wr[0];
            getFile(in, txt); if (e.empty() && txt != k.spec.text()) e = "the specification file has been changed"; getFile(cost, txt); if (e.empty() && txt != COST) e = "the cost file has been changed";
            if (e.empty() && nm && !r.r.rc) {
                bool has = getFile(out, got), want = r.r.verdict() == (hasOpt(k.opt, "--counterStrategy") ? 0 : 1); c.add(want ? C_A : C_B); if (want) c.add(C_NONTRIV);
                if (want && (!has || got.empty())) e = "the named output file is not written"; else if (!want && has) e = "an output file is written although there is nothing to write: " + got.substr(0, 200);
                else if (want && !symbolic(k.opt)) { auto b = a; b.pop_back(); Run q = run(b); c.add(C_RUNS); if (q.out != got) e = "the file differs from what is printed on standard output"; if (!r.r.out.empty() && e.empty()) e = "something is printed on standard output, too"; }
            }
        }
        if (!e.empty()) c.violation(hashKey(show(k.opt, k.spec)), e + "\n" + show(k.opt, k.spec));
    };
    return d;
}
// ---------------------------------------------------------------- write failures at every byte
struct Limited : std::streambuf { string got; size_t lim; explicit Limited(size_t l) : lim(l) {} int overflow(int ch) override { if (ch == EOF) return 0; if (got.size() >= lim) return EOF; got += (char)ch; return ch; } std::streamsize xsputn(const char *s, std::streamsize n) override { std::streamsize k = std::min<std::streamsize>(n, lim - got.size()); got.append(s, k); return k; } };
Driver faultDriver(bool deep) {
    auto cs = std::make_shared<vector<Case>>(); Driver d; d.id = "write-failures"; d.chunk = 1; d.timeout = 300;
    d.size = [=] { if (cs->empty()) { auto sp = specs(true); int n = 0; for (auto &k : permitted()) if (takesOutput(k) && !hasOpt(k, "--twoDimensionalCost")) for (auto &s : sp) { Game g(s); g.solve(); bool real = hasOpt(k, "--sysInitRoboticsSemantics") ? g.realizableRobotics() : g.realizableClassic(); if (s.sig.n() == 3 && !deep) continue; if (real == !hasOpt(k, "--counterStrategy") && (deep || n++ % 23 == 0)) cs->push_back({k, s}); } } return (i64)cs->size(); };
    d.describe = [=](i64 i) { return show((*cs)[i].opt, (*cs)[i].spec); };
    d.body = [=](i64 i, Ctx &c) {
        auto &k = (*cs)[i]; string in = putFile("in.slugsin", k.spec.text()), out = scratch() + "/out.strategy", full, e; unlink(out.c_str()); auto a = k.opt; a.push_back(in); a.push_back(out);
        Run r = run(a); c.add(C_RUNS); if (r.threw || r.rc) { c.violation(hashKey(show(k.opt, k.spec)), "run failed " + r.what + r.err); return; }
        if (!getFile(out, full) || full.empty()) return;     // cooperative: nothing may be announced
        c.add(C_NONTRIV); signal(SIGXFSZ, SIG_IGN); struct rlimit old; getrlimit(RLIMIT_FSIZE, &old);
        for (size_t lim = 0; lim <= full.size() && e.empty(); lim++) {
            unlink(out.c_str()); struct rlimit l = old; l.rlim_cur = lim; setrlimit(RLIMIT_FSIZE, &l); Run q = run(a); setrlimit(RLIMIT_FSIZE, &old); c.add(C_RUNS); c.add(C_TRACES); c.add(C_STATES); string got; getFile(out, got);
            if (lim == full.size()) { c.add(C_A); if (q.threw || q.rc || got != full) e = "output of exactly the permitted size fails: " + q.what + q.err; continue; }
            c.add(C_B); if (q.threw) e = "an exception escapes: " + q.what; else if (q.rc != 1 || q.err.find("Error") == string::npos) e = "only " + S(got.size()) + " of " + S(full.size()) + " bytes could be written to the output file, but no error is reported (exit code " + S(q.rc) + ")"; if (!e.empty()) e = "write fails after byte " + S(lim) + ": " + e;
        }
        if (!symbolic(k.opt)) { a.pop_back(); for (size_t lim = 0; lim <= full.size() && e.empty(); lim++) {
            Limited b(lim); rec.on = false; Run q = run(a, "", &b); c.add(C_RUNS); c.add(C_TRACES); c.add(C_STATES);
            if (lim == full.size()) { if (q.threw || q.rc || b.got != full) e = "output of exactly the permitted size fails: " + q.what + q.err; continue; }
            if (q.threw) e = "an exception escapes: " + q.what; else if (q.rc != 1 || q.err.find("Error") == string::npos) e = "only " + S(b.got.size()) + " of " + S(full.size()) + " bytes could be written to standard output, but no error is reported (exit code " + S(q.rc) + ")"; if (!e.empty()) e = "write to standard output fails after byte " + S(lim) + ": " + e;
        } }
        if (!e.empty()) c.violation(hashKey(show(k.opt, k.spec)), e + "\n" + show(k.opt, k.spec));
    };
    return d;
}
vector<Driver> o01(const string &tier) { bool T = tier == "thorough"; return {filesDriver(T), faultDriver(T)}; }
Reg r1("O01", o01);
}
