#include "strategy.hpp"
namespace mc {
Game gameOf(const SetupPtr &u, const Spec &s) { if (u) return u->game(s); Game g(s); g.solve(); return g; }
Game extended(const Game &g, int h) {
    Game e; e.ni = g.ni; e.no = g.no + h; e.n = g.n + h; e.NS = g.NS << h; e.NI = g.NI; e.NO = g.NO << h; e.refStates = g.refStates; e.refTrans = g.refTrans;
    auto state = [&](const TT &t) { TT r(2 * e.n); for (int s = 0; s < e.NS; s++) if (t.get(s & (g.NS - 1))) for (unsigned k = 0; k < (unsigned)(e.NI * e.NO); k++) r.set(s | k << e.n, true); return r; };
    auto trans = [&](const TT &t) { TT r(2 * e.n); for (int s = 0; s < e.NS; s++) for (int x = 0; x < e.NI; x++) for (int y = 0; y < e.NO; y++) if (t.get(g.key(s & (g.NS - 1), x, y & (g.NO - 1)))) r.set(e.key(s, x, y), true); return r; };
    e.envI = state(g.envI); e.sysI = state(g.sysI); e.envT = trans(g.envT); e.sysT = trans(g.sysT); for (auto &t : g.A) e.A.push_back(trans(t)); for (auto &t : g.G) e.G.push_back(trans(t));
    e.win.resize(e.NS); for (int s = 0; s < e.NS; s++) e.win[s] = g.win[s & (g.NS - 1)];
    return e;
}
string textOf(const SetupPtr &u, const Spec &s) { return u ? u->text(s) : s.text(); }
vector<string> preNames(const Sig &s) { vector<string> n = s.in; n.insert(n.end(), s.out.begin(), s.out.end()); return n; }
string valStr(const Game &g, unsigned s) { string r = "("; for (int i = 0; i < g.n; i++) r += (s >> i & 1) ? '1' : '0'; return r + ")"; }

static string vs(const Game &g, unsigned s) { return valStr(g, s); }
string checkStrategy(const Game &g, const Auto &a, const StratOpts &o, i64 *states, i64 *trans) {
    if (!a.ok) return "malformed strategy output: " + a.why;
    std::map<int, int> id; vector<const Auto::S *> st; vector<int> num;
    for (auto &p : a.st) { id[p.first] = st.size(); st.push_back(&p.second); num.push_back(p.first); }
    int N = st.size(), m = g.A.size(), n = g.G.size(); int ranks = o.coop ? n + m : n;
    if (states) *states += N;
    // initial states
    std::set<unsigned> start; for (auto s : st) if (s->rank == 0) start.insert(s->val);
    if (!o.robotics) {
        for (int x = 0; x < g.NI; x++) { if (!g.envI.get(g.st(x, 0))) continue; bool ok = false; for (int y = 0; y < g.NO; y++) if (g.sysI.get(g.st(x, y)) && start.count(g.st(x, y))) ok = true; if (!ok) return "no admissible initial state for initial input " + S(x); }
    } else for (int s = 0; s < g.NS; s++) if (g.envI.get(s) && g.sysI.get(s) && !start.count(s)) return "no strategy state for admissible initial position " + vs(g, s);
    vector<vector<std::pair<int, u64>>> edges(N);
    for (int v = 0; v < N; v++) {
        unsigned s = st[v]->val; if (s >= (unsigned)g.NS) return "valuation out of range";
        if (o.ranks && (st[v]->rank < 0 || st[v]->rank >= ranks)) return "rank out of range in state " + S(num[v]);
        vector<int> seen(g.NI, 0);
        for (int q : st[v]->succ) {
            int w = id.at(q); unsigned t = st[w]->val; int x = t & (g.NI - 1), y = t >> g.ni;
            if (trans) (*trans)++;
            if (seen[x]++) return "two successors of state " + S(num[v]) + " for the same next input";
            bool env = g.eT(s, x);
            if (!env && !o.recovery) return "state " + S(num[v]) + " has a successor for an input that the assumptions exclude";
            if (!g.sT(s, x, y)) return "transition " + S(num[v]) + "->" + S(q) + " " + vs(g, s) + "->" + vs(g, t) + " violates the safety guarantees";
            unsigned k = g.key(s, x, y); u64 lab = 0;
            for (int i = 0; i < m; i++) if (g.A[i].get(k)) lab |= 1ull << i;
            for (int j = 0; j < n; j++) if (g.G[j].get(k)) lab |= 1ull << (m + j);
            if (env) edges[v].push_back({w, lab});
            if (o.ranks && st[w]->rank != st[v]->rank) {
                for (int r = st[v]->rank; r != st[w]->rank; r = (r + 1) % ranks) { bool ok = r < n ? g.G[r].get(k) : g.A[r - n].get(k); if (!ok) return "goal number advances from " + S(st[v]->rank) + " to " + S(st[w]->rank) + " on a transition that does not satisfy goal " + S(r); }
            }
            if (o.coop) { bool any = false; for (int x2 = 0; x2 < g.NI; x2++) if (g.eT(t, x2)) any = true; if (!any) return "cooperative strategy drives the environment into a dead end"; }
        }
        for (int x = 0; x < g.NI; x++) {
            if (g.eT(s, x) && !seen[x]) return "state " + S(num[v]) + " " + vs(g, s) + " has no successor for the allowed next input " + S(x);
            if (!g.eT(s, x) && o.recovery) {
                bool can = false; for (int y = 0; y < g.NO; y++) if (g.sT(s, x, y) && g.win[g.st(x, y)]) can = true;
                if (can && !seen[x]) return "no recovery transition in state " + S(num[v]) + " " + vs(g, s) + " for the assumption-violating input " + S(x) + " although a winning position can be reached";
            }
        }
    }
    u64 allA = (1ull << m) - 1;
    for (int j = 0; j < n; j++) { int w = -1; if (badCycle(N, edges, allA, 1ull << (m + j), &w)) return "a cycle through state " + S(num[w]) + " satisfies every liveness assumption infinitely often but guarantee " + S(j) + " never"; }
    if (o.coop) {
        // from every state the environment can cooperate: some run satisfies all assumptions infinitely often
        vector<char> good(N, 0);
        for (int v = 0; v < N; v++) {
            vector<char> vis(N, 0); vector<int> q{v}; vis[v] = 1; while (!q.empty()) { int u = q.back(); q.pop_back(); for (auto &e : edges[u]) if (!vis[e.first]) { vis[e.first] = 1; q.push_back(e.first); } }
            vector<vector<std::pair<int, u64>>> sub(N); for (int u = 0; u < N; u++) if (vis[u]) sub[u] = edges[u];
            good[v] = badCycle(N, sub, allA, 0);
            if (!good[v]) return "from state " + S(num[v]) + " no environment behaviour satisfies all liveness assumptions any more";
        }
    }
    return "";
}
string checkBias(const Game &g, const Auto &a) {
    std::map<int, int> id; vector<const Auto::S *> st; vector<int> num;
    for (auto &p : a.st) { id[p.first] = st.size(); st.push_back(&p.second); num.push_back(p.first); }
    int N = st.size();
    for (int j = 0; j < (int)g.G.size(); j++) {
        vector<char> at(g.NS, 0);
        for (bool ch = true; ch;) {
            ch = false;
            for (int s = 0; s < g.NS; s++) if (!at[s] && g.win[s]) {
                bool all = true;
                for (int x = 0; x < g.NI && all; x++) if (g.eT(s, x)) { bool ok = false; for (int y = 0; y < g.NO; y++) if (g.sT(s, x, y) && ((g.G[j].get(g.key(s, x, y)) && g.win[g.st(x, y)]) || at[g.st(x, y)])) ok = true; all = ok; }
                if (all) { at[s] = 1; ch = true; }
            }
        }
        vector<vector<std::pair<int, u64>>> e(N);
        for (int v = 0; v < N; v++) if (st[v]->rank == j && at[st[v]->val]) for (int q : st[v]->succ) {
            int w = id.at(q); unsigned t = st[w]->val; unsigned k = g.key(st[v]->val, t & (g.NI - 1), t >> g.ni);
            if (g.G[j].get(k)) continue;
            if (!at[t]) return "with goal " + S(j) + " the strategy leaves the region from which the goal can be forced without using liveness assumptions (state " + S(num[v]) + ")";
            e[v].push_back({w, 0});
        }
        int w = -1; if (badCycle(N, e, 0, 0, &w)) return "with goal " + S(j) + " the strategy can loop in state " + S(num[w]) + " although the goal can be forced without using liveness assumptions";
    }
    return "";
}

string checkNondet(const Game &g, const Choices &allowed, const StratOpts &o, int ranks, const vector<unsigned> &start, i64 *states, i64 *trans) {
    int m = g.A.size(), n = g.G.size();
    std::map<std::pair<unsigned, int>, int> id; vector<std::pair<unsigned, int>> st;
    auto node = [&](unsigned s, int j) { auto it = id.find({s, j}); if (it != id.end()) return it->second; id[{s, j}] = st.size(); st.push_back({s, j}); return (int)st.size() - 1; };
    for (unsigned s : start) node(s, 0);
    vector<vector<std::pair<int, u64>>> edges;
    for (size_t v = 0; v < st.size(); v++) {
        unsigned s = st[v].first; int j = st[v].second; edges.resize(v + 1);
        if (!g.win[s]) return "the strategy reaches the losing position " + vs(g, s);
        for (int x = 0; x < g.NI; x++) {
            bool env = g.eT(s, x); auto c = allowed(s, j, x);
            if (env && c.empty()) return "no permitted output in position " + vs(g, s) + " goal " + S(j) + " for the allowed next input " + S(x);
            if (!env && !o.recovery) continue;
            if (!env && o.recovery && c.empty()) { for (int y = 0; y < g.NO; y++) if (g.sT(s, x, y) && g.win[g.st(x, y)]) return "no recovery transition in position " + vs(g, s) + " goal " + S(j) + " for input " + S(x) + " although a winning position can be reached"; }
            for (auto &p : c) {
                unsigned y = p.first; int j2 = p.second; unsigned t = g.st(x, y); unsigned k = g.key(s, x, y); if (trans) (*trans)++;
                if (!g.sT(s, x, y)) return "transition " + vs(g, s) + "->" + vs(g, t) + " (goal " + S(j) + ") violates the safety guarantees";
                if (j2 < 0 || j2 >= ranks) return "goal number out of range";
                for (int r = j; r != j2; r = (r + 1) % ranks) { bool ok = r < n ? g.G[r].get(k) : g.A[r - n].get(k); if (!ok) return "goal advances from " + S(j) + " to " + S(j2) + " without goal " + S(r) + " being satisfied, " + vs(g, s) + "->" + vs(g, t); }
                u64 lab = 0; for (int i = 0; i < m; i++) if (g.A[i].get(k)) lab |= 1ull << i;
                for (int q = 0; q < n; q++) if (g.G[q].get(k)) lab |= 1ull << (m + q);
                int w = node(t, j2); edges.resize(std::max(edges.size(), v + 1)); if (env) edges[v].push_back({w, lab});
            }
        }
    }
    edges.resize(st.size()); if (states) *states += st.size();
    u64 allA = (1ull << m) - 1;
    for (int j = 0; j < n; j++) { int w = -1; if (badCycle(st.size(), edges, allA, 1ull << (m + j), &w)) return "permitted choices allow a cycle through position " + vs(g, st[w].first) + " (goal " + S(st[w].second) + ") that satisfies every liveness assumption infinitely often but guarantee " + S(j) + " never"; }
    return "";
}
Auto resolve(const Game &g, const Choices &allowed, const StratOpts &o, const vector<unsigned> &start, bool highest) {
    Auto a; std::map<std::pair<unsigned, int>, int> id; vector<std::pair<unsigned, int>> st;
    auto node = [&](unsigned s, int j) { auto it = id.find({s, j}); if (it != id.end()) return it->second; id[{s, j}] = st.size(); st.push_back({s, j}); return (int)st.size() - 1; };
    for (unsigned s : start) node(s, 0);
    for (size_t v = 0; v < st.size(); v++) {
        unsigned s = st[v].first; int j = st[v].second; Auto::S q; q.val = s; q.rank = j; q.arank = -1;
        for (int x = 0; x < g.NI; x++) { if (!g.eT(s, x) && !o.recovery) continue; auto c = allowed(s, j, x); if (c.empty()) continue; auto p = highest ? c.back() : c.front(); q.succ.push_back(node(g.st(x, p.first), p.second)); }
        a.st[v] = q;
    }
    return a;
}
void Dddmp::parse(const string &text) {
    std::istringstream is(text); string l; bool inNames = false, inNodes = false; auto fail = [&](const string &w) { ok = false; why = w; };
    vector<int> ids; int nn = -1;
    while (std::getline(is, l)) {
        if (inNodes) {
            if (l.compare(0, 4, ".end") == 0) { inNodes = false; continue; }
            std::istringstream q(l); long no; string idx; long lo; N n; n.term = false;
            q >> no >> idx; if (idx == "T") { n.term = true; n.id = -1; n.t = n.e = 0; nodes[no] = n; continue; }
            n.id = atoi(idx.c_str()); q >> lo >> n.t >> n.e; if (!q) return fail("bad node line: " + l); nodes[no] = n; continue;
        }
        if (l.compare(0, 13, "# Num goals: ") == 0) goals = atoi(l.c_str() + 13);
        else if (l.compare(0, 17, "# Variable names:") == 0) inNames = true;
        else if (inNames && l.compare(0, 2, "#\t") == 0) { size_t c = l.find(": "); if (c == string::npos) return fail("bad variable line " + l); int i = atoi(l.c_str() + 2); if (i != (int)names.size()) return fail("variable numbering"); names.push_back(l.substr(c + 2)); if (byName.count(names.back())) return fail("variable name twice: " + names.back()); byName[names.back()] = i; }
        else if (inNames) { inNames = false; }
        if (l.compare(0, 5, ".ids ") == 0) { std::istringstream q(l.substr(5)); int x; while (q >> x) ids.push_back(x); }
        if (l.compare(0, 8, ".nnodes ") == 0) nn = atoi(l.c_str() + 8);
        if (l.compare(0, 6, ".mode ") == 0 && l != ".mode A") return fail("not a text dddmp file");
        if (l.compare(0, 9, ".varinfo ") == 0 && l != ".varinfo 0") return fail("unexpected varinfo");
        if (l.compare(0, 9, ".rootids ") == 0) root = atol(l.c_str() + 9);
        if (l == ".nodes") inNodes = true;
    }
    if (!root || nn != (int)nodes.size()) return fail("incomplete dddmp file");
    std::set<int> idset(ids.begin(), ids.end());
    for (auto &p : nodes) if (!p.second.term) { if (!nodes.count(labs(p.second.t)) || !nodes.count(labs(p.second.e))) return fail("dangling node"); if (p.second.id < 0 || p.second.id >= (int)names.size() || !idset.count(p.second.id)) return fail("unknown variable id in node"); }
    if (!nodes.count(labs(root))) return fail("dangling root");
}
bool Dddmp::eval(u64 a) const {
    bool neg = root < 0; long c = labs(root);
    for (;;) { const N &n = nodes.at(c); if (n.term) return !neg; long nx = (a >> n.id & 1) ? n.t : n.e; if (nx < 0) neg = !neg; c = labs(nx); }
}
}
