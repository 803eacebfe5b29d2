#include "harness.hpp"
#include <functional>
#include <stdexcept>
namespace mc {
string hex(u64 v) { char b[32]; snprintf(b, 32, "%llx", (unsigned long long)v); return b; }
string hashKey(const string &s) { u64 h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return hex(h); }
string join(const vector<string> &v, const string &sep) { string r; for (size_t i = 0; i < v.size(); i++) r += (i ? sep : "") + v[i]; return r; }

// ---- infix mini language -> (prefix text, truth table)
struct P {
    const Sig &s; const string &t; size_t p = 0; int nv;
    P(const Sig &s_, const string &t_) : s(s_), t(t_), nv(2 * s_.n()) {}
    void ws() { while (p < t.size() && t[p] == ' ') p++; }
    bool eat(const char *k) { ws(); size_t l = strlen(k); if (t.compare(p, l, k) == 0) { p += l; return true; } return false; }
    Fml iff() { Fml a = imp(); while (eat("<->")) { Fml b = imp(); a = {"! ^ " + a.txt + " " + b.txt, !(a.tt ^ b.tt)}; } return a; }
    Fml imp() { Fml a = orr(); ws(); if (t.compare(p, 2, "->") == 0) { p += 2; Fml b = imp(); return {"| ! " + a.txt + " " + b.txt, (!a.tt) | b.tt}; } return a; }
    Fml orr() { Fml a = xorr(); while (eat("|")) { Fml b = xorr(); a = {"| " + a.txt + " " + b.txt, a.tt | b.tt}; } return a; }
    Fml xorr() { Fml a = andd(); while (eat("^")) { Fml b = andd(); a = {"^ " + a.txt + " " + b.txt, a.tt ^ b.tt}; } return a; }
    Fml andd() { Fml a = un(); while (eat("&")) { Fml b = un(); a = {"& " + a.txt + " " + b.txt, a.tt & b.tt}; } return a; }
    Fml un() {
        if (eat("!")) { Fml a = un(); return {"! " + a.txt, !a.tt}; }
        if (eat("(")) { Fml a = iff(); if (!eat(")")) throw std::runtime_error("formula: ) expected in " + t); return a; }
        ws(); string w; while (p < t.size() && (isalnum(t[p]) || t[p] == '_' || t[p] == '@' || t[p] == '.')) w += t[p++];
        if (w == "1") return {"1", TT(nv, true)};
        if (w == "0") return {"0", TT(nv, false)};
        bool prime = p < t.size() && t[p] == '\''; if (prime) p++;
        for (int v = 0; v < s.n(); v++) if (s.name(v) == w) return {w + (prime ? "'" : ""), TT::var(nv, v + (prime ? s.n() : 0))};
        throw std::runtime_error("formula: unknown name '" + w + "' in " + t);
    }
};
Fml fml(const Sig &s, const string &infix) { P p(s, infix); Fml f = p.iff(); p.ws(); if (p.p != infix.size()) throw std::runtime_error("formula: junk in " + infix); return f; }
vector<Fml> fmls(const Sig &s, const vector<string> &v) { vector<Fml> r; for (auto &x : v) r.push_back(fml(s, x)); return r; }

string Spec::text() const {
    std::ostringstream o;
    o << "[INPUT]\n"; for (auto &v : sig.in) o << v << "\n";
    o << "\n[OUTPUT]\n"; for (auto &v : sig.out) o << v << "\n";
    auto sec = [&](const char *nm, const vector<Fml> &f) { if (f.empty()) return; o << "\n[" << nm << "]\n"; for (auto &x : f) o << x.txt << "\n"; };
    sec("ENV_INIT", envI); sec("SYS_INIT", sysI); sec("ENV_TRANS", envT); sec("SYS_TRANS", sysT); sec("ENV_LIVENESS", A); sec("SYS_LIVENESS", G);
    return o.str();
}

// ---- reference game
Game::Game(const Spec &s) {
    ni = s.sig.ni(); no = s.sig.no(); n = ni + no; NS = 1 << n; NI = 1 << ni; NO = 1 << no;
    TT one(2 * n, true);
    auto conj = [&](const vector<Fml> &f) { TT r = one; for (auto &x : f) r = r & x.tt; return r; };
    envI = conj(s.envI); sysI = conj(s.sysI); envT = conj(s.envT); sysT = conj(s.sysT);
    for (auto &x : s.A) A.push_back(x.tt);
    for (auto &x : s.G) G.push_back(x.tt);
    if (A.empty()) A.push_back(one);
    if (G.empty()) G.push_back(one);
}
vector<char> zielonka(const vector<char> &owner, const vector<char> &prio, const vector<vector<int>> &succ) {
    int N = owner.size();
    vector<vector<int>> pred(N); for (int v = 0; v < N; v++) for (int w : succ[v]) pred[w].push_back(v);
    vector<char> in(N, 1), res(N, 0);
    // attractor of set X (flags) for player pl inside `in`
    auto attr = [&](vector<int> X, int pl, const vector<char> &in) {
        vector<char> f(N, 0); vector<int> out, st; vector<int> deg(N, -1);
        for (int v : X) if (!f[v]) { f[v] = 1; st.push_back(v); }
        while (!st.empty()) {
            int v = st.back(); st.pop_back(); out.push_back(v);
            for (int u : pred[v]) if (in[u] && !f[u]) {
                if (owner[u] == pl) { f[u] = 1; st.push_back(u); }
                else { if (deg[u] < 0) { deg[u] = 0; for (int w : succ[u]) if (in[w]) deg[u]++; } if (--deg[u] == 0) { f[u] = 1; st.push_back(u); } }
            }
        }
        return out;
    };
    std::function<void(vector<char>, vector<char> &)> solve = [&](vector<char> in, vector<char> &win /*1 = system*/) {
        int d = -1; for (int v = 0; v < N; v++) if (in[v]) d = std::max(d, (int)prio[v]);
        if (d < 0) return;
        int pl = d & 1;                                 // 0 = system likes even
        for (;;) {
            vector<int> X; for (int v = 0; v < N; v++) if (in[v] && prio[v] == d) X.push_back(v);
            vector<int> a = attr(X, pl, in);
            vector<char> sub = in; for (int v : a) sub[v] = 0;
            vector<char> w2(N, 0); solve(sub, w2);
            vector<int> opp; for (int v = 0; v < N; v++) if (sub[v] && (w2[v] ? 0 : 1) != pl) opp.push_back(v);
            if (opp.empty()) { for (int v = 0; v < N; v++) if (in[v]) win[v] = (pl == 0); return; }
            vector<int> b = attr(opp, 1 - pl, in);
            for (int v : b) { win[v] = (1 - pl == 0); in[v] = 0; }
            bool any = false; for (int v = 0; v < N; v++) if (in[v]) { any = true; break; }
            if (!any) return;
            // the maximal priority may have dropped
            int d2 = -1; for (int v = 0; v < N; v++) if (in[v]) d2 = std::max(d2, (int)prio[v]);
            if (d2 != d) { vector<char> w3(N, 0); solve(in, w3); for (int v = 0; v < N; v++) if (in[v]) win[v] = w3[v]; return; }
        }
    };
    // dead ends: the owner loses
    for (int pl = 0; pl < 2; pl++) {
        vector<int> X; for (int v = 0; v < N; v++) if (in[v] && owner[v] == 1 - pl) { bool any = false; for (int w : succ[v]) if (in[w]) any = true; if (!any) X.push_back(v); }
        vector<int> a = attr(X, pl, in); for (int v : a) { res[v] = (pl == 0); in[v] = 0; }
        // removing one attractor can not create new dead ends for the other player beyond those in it
    }
    vector<char> w(N, 0); solve(in, w);
    for (int v = 0; v < N; v++) if (in[v]) res[v] = w[v];
    return res;
}
void Game::solve() {
    int m = A.size(), g = G.size();
    // env nodes: ((s*m+i)*g+j)*3+p ; system nodes: (((s*NI+x)*m+i)*g+j)
    int EN = NS * m * g * 3; int SN = NS * NI * m * g;
    vector<char> owner(EN + SN), prio(EN + SN, 0); vector<vector<int>> succ(EN + SN);
    for (int s = 0; s < NS; s++) for (int i = 0; i < m; i++) for (int j = 0; j < g; j++) {
        for (int p = 0; p < 3; p++) {
            int v = ((s * m + i) * g + j) * 3 + p; owner[v] = 1; prio[v] = p;
            for (int x = 0; x < NI; x++) if (eT(s, x)) succ[v].push_back(EN + ((s * NI + x) * m + i) * g + j);
            refTrans += succ[v].size();
        }
        for (int x = 0; x < NI; x++) {
            int v = EN + ((s * NI + x) * m + i) * g + j; owner[v] = 0;
            if (!eT(s, x)) { owner[v] = 1; continue; }
            for (int y = 0; y < NO; y++) if (sT(s, x, y)) {
                unsigned k = key(s, x, y); int i2 = i, j2 = j, p = 0;
                if (A[i].get(k)) { i2 = (i + 1) % m; if (i2 == 0) p = 1; }
                if (G[j].get(k)) { j2 = (j + 1) % g; if (j2 == 0) p = 2; }
                succ[v].push_back(((st(x, y) * m + i2) * g + j2) * 3 + p);
            }
            refTrans += succ[v].size();
        }
    }
    refStates += EN + SN;
    vector<char> r = zielonka(owner, prio, succ);
    win.assign(NS, 0); for (int s = 0; s < NS; s++) win[s] = r[((s * m) * g) * 3];
}
bool Game::realizableClassic() const {
    for (int x = 0; x < NI; x++) {
        if (!envI.get(st(x, 0))) continue;
        bool ok = false; for (int y = 0; y < NO; y++) if (sysI.get(st(x, y)) && win[st(x, y)]) ok = true;
        if (!ok) return false;
    }
    return true;
}
bool Game::realizableRobotics() const {
    for (int s = 0; s < NS; s++) if (envI.get(s) && sysI.get(s) && !win[s]) return false;
    return true;
}

// ---- strategies
static void trimS(string &s) { size_t a = s.find_first_not_of(" \t\r\n"), b = s.find_last_not_of(" \t\r\n"); s = a == string::npos ? "" : s.substr(a, b - a + 1); }
Auto parseText(const string &s, const vector<string> &names) {
    Auto r; std::istringstream is(s); string l; Auto::S *cur = nullptr;
    while (std::getline(is, l)) {
        string t = l; trimS(t); if (t.empty()) continue;
        if (t.compare(0, 6, "State ") == 0) {
            int id = atoi(t.c_str() + 6); Auto::S st; st.val = 0; st.rank = st.arank = -1;
            size_t q = t.find("with rank "); if (q == string::npos) { r.ok = false; r.why = "no rank in: " + t; return r; }
            st.rank = -1; const char *rp = t.c_str() + q + 10; if (*rp == '(') { st.rank = -2; } else st.rank = atoi(rp);
            size_t a = t.find('<'), b = t.rfind('>'); if (a == string::npos || b == string::npos) { r.ok = false; r.why = "no <...> in: " + t; return r; }
            std::istringstream vs(t.substr(a + 1, b - a - 1)); string it; u64 seen = 0;
            while (std::getline(vs, it, ',')) {
                trimS(it); size_t c = it.rfind(':'); if (c == string::npos) { r.ok = false; r.why = "bad valuation: " + t; return r; }
                string nm = it.substr(0, c); bool f = false;
                for (size_t k = 0; k < names.size(); k++) if (names[k] == nm) { f = true; if (seen >> k & 1) { r.ok = false; r.why = "variable twice: " + t; return r; } seen |= 1ull << k; if (it[c + 1] == '1') st.val |= 1u << k; else if (it[c + 1] != '0') { r.ok = false; r.why = "bad value: " + t; return r; } }
                if (!f) { r.ok = false; r.why = "unknown variable " + nm + " in: " + t; return r; }
            }
            if (seen != (1ull << names.size()) - 1) { r.ok = false; r.why = "incomplete valuation: " + t; return r; }
            if (r.st.count(id)) { r.ok = false; r.why = "state number used twice: " + t; return r; }
            cur = &(r.st[id] = st);
        } else if (t.compare(0, 15, "With successors") == 0) {
            if (!cur) { r.ok = false; r.why = "successors without state"; return r; }
            size_t c = t.find(':'); if (c == string::npos) { r.ok = false; r.why = "bad line: " + t; return r; }
            std::istringstream vs(t.substr(c + 1)); string it;
            while (std::getline(vs, it, ',')) { trimS(it); if (it.empty()) continue; if (!isdigit(it[0])) { r.ok = false; r.why = "bad successor: " + t; return r; } cur->succ.push_back(atoi(it.c_str())); }
            cur = nullptr;
        } else if (t.compare(0, 18, "With no successors") == 0) { cur = nullptr; }
        else { r.ok = false; r.why = "unexpected line: " + t; return r; }
    }
    for (auto &p : r.st) for (int q : p.second.succ) if (!r.st.count(q)) { r.ok = false; r.why = "successor " + S(q) + " of state " + S(p.first) + " does not exist"; }
    return r;
}
// Tiny JSON reader, sufficient for (and strict about) the strategy files.
struct JV { char k = 0; double num = 0; string s; vector<JV> a; vector<std::pair<string, JV>> o;
    const JV *get(const string &n) const { for (auto &p : o) if (p.first == n) return &p.second; return nullptr; } };
struct JP {
    const string &t; size_t p = 0; bool ok = true; JP(const string &x) : t(x) {}
    void ws() { while (p < t.size() && isspace((unsigned char)t[p])) p++; }
    JV val() {
        JV v; ws(); if (p >= t.size()) { ok = false; return v; }
        char c = t[p];
        if (c == '{') { v.k = 'o'; p++; ws(); if (p < t.size() && t[p] == '}') { p++; return v; }
            for (;;) { JV kx = val(); if (kx.k != 's') { ok = false; return v; } ws(); if (p >= t.size() || t[p] != ':') { ok = false; return v; } p++; v.o.push_back({kx.s, val()}); if (!ok) return v; ws(); if (p < t.size() && t[p] == ',') { p++; continue; } if (p < t.size() && t[p] == '}') { p++; return v; } ok = false; return v; } }
        if (c == '[') { v.k = 'a'; p++; ws(); if (p < t.size() && t[p] == ']') { p++; return v; }
            for (;;) { v.a.push_back(val()); if (!ok) return v; ws(); if (p < t.size() && t[p] == ',') { p++; continue; } if (p < t.size() && t[p] == ']') { p++; return v; } ok = false; return v; } }
        if (c == '"') { v.k = 's'; p++; while (p < t.size() && t[p] != '"') { if (t[p] == '\\') p++; if (p < t.size()) v.s += t[p++]; } if (p >= t.size()) { ok = false; return v; } p++; return v; }
        if (c == '-' || isdigit((unsigned char)c)) { v.k = 'n'; size_t e; try { v.num = std::stod(t.substr(p, 40), &e); } catch (...) { ok = false; return v; } p += e; return v; }
        ok = false; return v;
    }
};
Auto parseJson(const string &s, const vector<string> &names) {
    Auto r; JP jp(s); JV v = jp.val(); jp.ws();
    if (!jp.ok || jp.p != s.size() || v.k != 'o') { r.ok = false; r.why = "not valid JSON"; return r; }
    const JV *vars = v.get("variables"), *nodes = v.get("nodes");
    if (!vars || !nodes || vars->k != 'a' || nodes->k != 'o') { r.ok = false; r.why = "JSON lacks variables/nodes"; return r; }
    vector<int> pos; u64 seen = 0;
    for (auto &x : vars->a) { int k = -1; for (size_t i = 0; i < names.size(); i++) if (names[i] == x.s) k = i; if (k < 0) { r.ok = false; r.why = "unknown variable in JSON"; return r; } pos.push_back(k); seen |= 1ull << k; }
    if (seen != (1ull << names.size()) - 1 || pos.size() != names.size()) { r.ok = false; r.why = "JSON variable list incomplete"; return r; }
    for (auto &p : nodes->o) {
        int id = atoi(p.first.c_str()); Auto::S st; st.val = 0; st.rank = -1; st.arank = -1;
        const JV *rk = p.second.get("rank"), *stt = p.second.get("state"), *tr = p.second.get("trans");
        if (!rk || !stt || !tr || stt->a.size() != pos.size()) { r.ok = false; r.why = "JSON node incomplete"; return r; }
        st.rank = rk->k == 'n' ? (int)rk->num : -2;
        for (size_t i = 0; i < pos.size(); i++) { if (stt->a[i].k != 'n' || (stt->a[i].num != 0 && stt->a[i].num != 1)) { r.ok = false; r.why = "JSON value not 0/1"; return r; } if (stt->a[i].num == 1) st.val |= 1u << pos[i]; }
        for (auto &q : tr->a) st.succ.push_back((int)q.num);
        if (r.st.count(id)) { r.ok = false; r.why = "JSON node twice"; return r; }
        r.st[id] = st;
    }
    for (auto &p : r.st) for (int q : p.second.succ) if (!r.st.count(q)) { r.ok = false; r.why = "JSON successor does not exist"; }
    return r;
}
bool badCycle(int N, const vector<vector<std::pair<int, u64>>> &edges, u64 need, u64 avoid, int *witness) {
    // Tarjan on the edges without `avoid` bits; an SCC with an internal edge for every needed bit is bad.
    vector<int> idx(N, -1), low(N, 0), comp(N, -1), st; int cnt = 0, nc = 0; vector<char> on(N, 0);
    struct Fr { int v; size_t e; };
    for (int r0 = 0; r0 < N; r0++) if (idx[r0] < 0) {
        vector<Fr> cs; cs.push_back({r0, 0}); idx[r0] = low[r0] = cnt++; st.push_back(r0); on[r0] = 1;
        while (!cs.empty()) {
            Fr &f = cs.back(); int v = f.v;
            if (f.e < edges[v].size()) {
                auto &e = edges[v][f.e++]; if (e.second & avoid) continue; int w = e.first;
                if (idx[w] < 0) { idx[w] = low[w] = cnt++; st.push_back(w); on[w] = 1; cs.push_back({w, 0}); }
                else if (on[w]) low[v] = std::min(low[v], idx[w]);
            } else {
                if (low[v] == idx[v]) { int w; do { w = st.back(); st.pop_back(); on[w] = 0; comp[w] = nc; } while (w != v); nc++; }
                cs.pop_back(); if (!cs.empty()) low[cs.back().v] = std::min(low[cs.back().v], low[v]);
            }
        }
    }
    vector<u64> have(nc, 0); vector<char> cyc(nc, 0); vector<int> rep(nc, -1);
    for (int v = 0; v < N; v++) for (auto &e : edges[v]) if (!(e.second & avoid) && comp[e.first] == comp[v]) { have[comp[v]] |= e.second; cyc[comp[v]] = 1; rep[comp[v]] = v; }
    for (int c = 0; c < nc; c++) if (cyc[c] && (have[c] & need) == need) { if (witness) *witness = rep[c]; return true; }
    return false;
}
vector<vector<int>> subsets(int n, int k) {
    vector<vector<int>> r; r.push_back({});
    std::function<void(vector<int> &, int)> rec = [&](vector<int> &c, int from) {
        if ((int)c.size() == k) return;
        for (int i = from; i < n; i++) { c.push_back(i); r.push_back(c); rec(c, i + 1); c.pop_back(); }
    };
    vector<int> c; rec(c, 0); return r;
}
}
