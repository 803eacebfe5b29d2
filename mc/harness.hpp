// Shared machinery of the model-checking drivers.
//  * run():       calls the real command-line entry point of slugs in-process
//  * Pool:        forks workers that exhaust an index space [0,N); crashes and hangs are attributed
//  * TT/Fml/Spec: bounded specification language with truth-table semantics independent of BDDs
//  * Game:        explicit-state reference solver (counter product + Zielonka), independent of the
//                 symbolic fixpoint that slugs computes
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <array>
#include <algorithm>
#include <memory>

namespace mc {
using std::string; using std::vector;
typedef int64_t i64; typedef uint64_t u64;

// ---------------------------------------------------------------- running slugs
struct Run { int rc = -1; string out, err; bool threw = false; string what;
    bool has(const char *s) const { return err.find(s) != string::npos; }
    // 1 realizable, 0 unrealizable, -1 no/ambiguous verdict
    int verdict() const;
};
Run run(const vector<string> &args, const string &input = "", std::streambuf *outTo = nullptr);   // outTo: standard output goes there
string scratch();                       // per-process scratch directory (tmpfs)
string putFile(const string &name, const string &content);   // in scratch, returns path
bool getFile(const string &path, string &content);
extern long g_reorderFirst, g_reorderStep;   // 0 = leave CUDD's own reordering schedule alone
extern size_t g_cuddMem;
extern long g_reorderings;                   // reorderings that really happened
// rand() is a controlled choice point.  When a path is set, choices are taken from it (then 0).
struct Choice { static vector<int> path; static size_t pos; static vector<int> taken; static bool active; static i64 limit; static int tail; };   // tail: every choice is xored with it
// Explore every outcome of rand()%2 choice points made by body(), depth-limited. returns number of paths
i64 exploreRand(const std::function<void()> &body, size_t maxDepth, i64 maxPaths, bool &capped);

// ---------------------------------------------------------------- worker pool
enum Counter { C_INST, C_RUNS, C_STATES, C_TRANS, C_TRACES, C_NONTRIV, C_A, C_B, C_C, C_D, C_VIOL, C_REORD, C_NUM };
struct Ctx {
    i64 index = 0;
    void add(Counter c, i64 n = 1);
    void violation(const string &key, const string &detail);   // key identifies the failing input
    void sample(const string &s);
    bool verbose = false;
};
struct Driver {
    string id;
    string tier;
    std::function<i64()> size;                                // number of instances
    std::function<void(i64, Ctx &)> body;
    std::function<string(i64)> describe;
    int chunk = 16;
    int recycle = 3000;                                       // instances per forked worker
    int timeout = 60;                                         // seconds per instance
};
typedef std::function<vector<Driver>(const string &tier)> Factory;
void registerProperty(const string &id, Factory f);
vector<Driver> driversOf(const string &id, const string &tier);
struct Reg { Reg(const string &id, Factory f) { registerProperty(id, f); } };
i64 counter(Counter c);
// free-form facts for the evidence file, written by driver factories or merged from workers
extern std::map<string, string> g_notes;

// ---------------------------------------------------------------- truth tables (<= 10 variables)
struct TT {
    int nv = 0; vector<u64> w;
    TT() {}
    explicit TT(int n, bool v = false) : nv(n), w(std::max(1, (1 << n) / 64), v ? ~0ull : 0ull) { trim(); }
    void trim() { if (nv < 6) w[0] &= (1ull << (1 << nv)) - 1; }
    bool get(unsigned i) const { return (w[i >> 6] >> (i & 63)) & 1; }
    void set(unsigned i, bool b) { if (b) w[i >> 6] |= 1ull << (i & 63); else w[i >> 6] &= ~(1ull << (i & 63)); }
    static TT var(int n, int v) { TT t(n); for (unsigned i = 0; i < (1u << n); i++) if (i >> v & 1) t.set(i, true); return t; }
    TT operator&(const TT &o) const { TT r = *this; for (size_t i = 0; i < w.size(); i++) r.w[i] &= o.w[i]; return r; }
    TT operator|(const TT &o) const { TT r = *this; for (size_t i = 0; i < w.size(); i++) r.w[i] |= o.w[i]; return r; }
    TT operator^(const TT &o) const { TT r = *this; for (size_t i = 0; i < w.size(); i++) r.w[i] ^= o.w[i]; return r; }
    TT operator!() const { TT r = *this; for (size_t i = 0; i < w.size(); i++) r.w[i] = ~w[i]; r.trim(); return r; }
    bool operator==(const TT &o) const { return nv == o.nv && w == o.w; }
    bool operator!=(const TT &o) const { return !(*this == o); }
    bool operator<(const TT &o) const { return w < o.w; }
    bool none() const { for (u64 x : w) if (x) return false; return true; }
    bool all() const { return (!*this).none(); }
    int count() const { int c = 0; for (u64 x : w) c += __builtin_popcountll(x); return c; }
    TT exists(int v) const { TT r(nv); for (unsigned i = 0; i < (1u << nv); i++) if (get(i) || get(i ^ (1u << v))) r.set(i, true); return r; }
};

// ---------------------------------------------------------------- formulas and specifications
struct Fml { string txt; TT tt; };      // txt: slugs prefix syntax
struct Sig {                            // signature: names of inputs and outputs
    vector<string> in, out;
    int ni() const { return in.size(); } int no() const { return out.size(); } int n() const { return ni() + no(); }
    string name(int v) const { return v < ni() ? in[v] : out[v - ni()]; }
};
Fml fml(const Sig &s, const string &infix);                 // ! & ^ | -> <-> ( ) 0 1 names with optional '
vector<Fml> fmls(const Sig &s, const vector<string> &infix);
struct Spec {
    Sig sig; vector<Fml> envI, sysI, envT, sysT, A, G;
    string text() const;
};

struct Game {
    int ni, no, n, NS, NI, NO;          // NS = 2^n states; state bits: inputs low, outputs high
    TT envI, sysI, envT, sysT; vector<TT> A, G;
    Game() {}
    explicit Game(const Spec &s);
    unsigned key(unsigned s, unsigned x, unsigned y) const { return s | ((x | (y << ni)) << n); }
    unsigned st(unsigned x, unsigned y) const { return x | (y << ni); }
    bool eT(unsigned s, unsigned x) const { return envT.get(key(s, x, 0)); }   // env safety has no post outputs
    bool sT(unsigned s, unsigned x, unsigned y) const { return sysT.get(key(s, x, y)); }
    vector<char> win;                   // winning for the system (classical GR(1))
    i64 refStates = 0, refTrans = 0;    // size of the explicit game graph explored
    void solve();
    bool realizableClassic() const;
    bool realizableRobotics() const;
};
// Max-parity game on explicit graph: owner[v] (0 = system/even, 1 = environment), priority, successors.
// A player without successors loses.  Returns winner==0 flags.
vector<char> zielonka(const vector<char> &owner, const vector<char> &prio, const vector<vector<int>> &succ);

// generic finite automaton of a strategy
struct Auto {
    struct S { unsigned val; int rank; int arank; vector<int> succ; };
    std::map<int, S> st;
    bool ok = true; string why;
};
Auto parseText(const string &s, const vector<string> &names);    // names in the order to put into val
Auto parseJson(const string &s, const vector<string> &names);
bool sccAllFair(int N, const std::function<void(int, const std::function<void(int, u64)> &)> &edges, u64 need, u64 forbid, vector<int> &scc);
// Is there a cycle using only edges with no bit of `avoid`, whose SCC contains every bit of `need`?
bool badCycle(int N, const vector<vector<std::pair<int, u64>>> &edges, u64 need, u64 avoid, int *witness = 0);

string hex(u64 v);
string hashKey(const string &s);
string join(const vector<string> &v, const string &sep);
inline string S(i64 v) { return std::to_string(v); }

// mixed radix enumeration helper
struct Radix {
    vector<i64> r; vector<i64> d;
    i64 total() const { i64 t = 1; for (i64 x : r) t *= x; return t; }
    void decode(i64 i) { d.resize(r.size()); for (size_t k = 0; k < r.size(); k++) { d[k] = i % r[k]; i /= r[k]; } }
};
// all subsets of size 0..k of [0,n) as index lists (ordered, without repetition)
vector<vector<int>> subsets(int n, int k);
}
