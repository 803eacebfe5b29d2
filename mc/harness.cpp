#include "harness.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <atomic>
#include <fstream>
#include <chrono>
#include <cudd.h>


int slugs_main(int argc, const char **argv);

namespace mc {
size_t g_cuddMem = 4u << 20;
long g_reorderFirst = 0, g_reorderStep = 0, g_reorderings = 0;
std::map<string, string> g_notes;
}
// ------------------------------------------------------------------ link-time seams
static int postReorder(DdManager *m, const char *, void *) {
    mc::g_reorderings++;
    if (mc::g_reorderStep > 0) Cudd_SetNextReordering(m, std::max(12u, Cudd_ReadKeys(m) - Cudd_ReadDead(m) + (unsigned)mc::g_reorderStep + Cudd_ReadReorderings(m) / 4));   // the distance grows, or an operation that needs more new nodes would be restarted for ever
    return 1;
}
extern "C" {
DdManager *__real_Cudd_Init(unsigned, unsigned, unsigned, unsigned, size_t);
int __real_rand(void);
// Smaller tables than the default, so that tens of thousands of managers can be created; and,
// on request, a chosen reordering schedule.
DdManager *__wrap_Cudd_Init(unsigned nv, unsigned nz, unsigned slots, unsigned cache, size_t mem) {
    (void)slots; (void)cache; (void)mem;
    DdManager *m = __real_Cudd_Init(nv, nz, 32, 2048, mc::g_cuddMem);
    if (mc::g_reorderFirst > 0) {
        Cudd_SetNextReordering(m, mc::g_reorderFirst);
        Cudd_AddHook(m, postReorder, CUDD_POST_REORDERING_HOOK);
    }
    return m;
}
int __wrap_rand(void) {
    using namespace mc;
    if (!Choice::active) return __real_rand();
    int v = Choice::pos < Choice::path.size() ? Choice::path[Choice::pos] : 0;
    Choice::pos++; Choice::taken.push_back(v);
    if ((i64)Choice::taken.size() > Choice::limit) throw "rand limit";
    return v ^ Choice::tail;
}
}
namespace mc {
vector<int> Choice::path, Choice::taken; size_t Choice::pos = 0; bool Choice::active = false; i64 Choice::limit = 1000000; int Choice::tail = 0;

i64 exploreRand(const std::function<void()> &body, size_t maxDepth, i64 maxPaths, bool &capped) {
    capped = false; i64 n = 0;
    Choice::path.clear();
    for (;;) {
        Choice::active = true; Choice::pos = 0; Choice::taken.clear();
        body();
        Choice::active = false; n++;
        vector<int> t = Choice::taken;
        if (t.size() > maxDepth) { t.resize(maxDepth); capped = true; }
        while (!t.empty() && t.back() == 1) t.pop_back();
        if (t.empty()) return n;
        t.back() = 1; Choice::path = t;
        if (n >= maxPaths) { capped = true; return n; }
    }
}

int Run::verdict() const {
    bool r = err.find("RESULT: Specification is realizable.") != string::npos;
    bool u = err.find("RESULT: Specification is unrealizable.") != string::npos;
    if (r == u) return -1;
    return r ? 1 : 0;
}

static string g_scratch; static pid_t g_scratchPid = 0; static string g_base;
string scratch() {
    if (g_scratchPid != getpid()) {
        g_scratchPid = getpid();
        g_scratch = g_base + "/w" + std::to_string(getpid());
        mkdir(g_scratch.c_str(), 0700);
    }
    return g_scratch;
}
string putFile(const string &name, const string &c) {
    string p = scratch() + "/" + name;
    int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    if (fd < 0 || write(fd, c.data(), c.size()) != (ssize_t)c.size()) { perror("putFile"); _exit(9); }
    close(fd); return p;
}
bool getFile(const string &path, string &c) {
    std::ifstream f(path.c_str(), std::ios::binary); if (!f) return false;
    std::ostringstream o; o << f.rdbuf(); c = o.str(); return true;
}

Run run(const vector<string> &args, const string &input, std::streambuf *outTo) {
    Run r; std::ostringstream o, e; std::istringstream in(input);
    auto *ob = std::cout.rdbuf(outTo ? outTo : o.rdbuf()); auto *eb = std::cerr.rdbuf(e.rdbuf()); auto *ib = std::cin.rdbuf(in.rdbuf());
    std::cin.clear(); std::cout.clear(); std::cerr.clear();
    vector<const char *> av; av.push_back("slugs"); for (auto &a : args) av.push_back(a.c_str()); av.push_back(nullptr);
    try { r.rc = slugs_main((int)args.size() + 1, av.data()); }
    catch (std::exception &x) { r.threw = true; r.what = x.what(); }
    catch (const char *x) { r.threw = true; r.what = x; }
    catch (...) { r.threw = true; r.what = "unknown exception"; }
    std::cout.rdbuf(ob); std::cout.clear(); std::cerr.rdbuf(eb); std::cin.rdbuf(ib); std::cin.clear();
    r.out = o.str(); r.err = e.str(); return r;
}

// ------------------------------------------------------------------ pool
struct Shared { std::atomic<i64> next; std::atomic<i64> cnt[C_NUM]; std::atomic<i64> cur[64]; std::atomic<i64> nviol; std::atomic<i64> nsamp; std::atomic<i64> timeouts; };
static Shared *sh; static int violFd = -1, sampFd = -1; static int g_slot = 0;
i64 counter(Counter c) { return sh->cnt[c]; }
void Ctx::add(Counter c, i64 n) { sh->cnt[c] += n; }
static string esc(const string &s) {
    string r; for (char c : s) { if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c == '\\') r += "\\\\"; else r += c; } return r;
}
void Ctx::violation(const string &key, const string &detail) {
    sh->cnt[C_VIOL]++;
    if (verbose) fprintf(stderr, "VIOLATION %s\n%s\n", key.c_str(), detail.c_str());
    if (sh->nviol.fetch_add(1) > 3000) return;
    string l = S(index) + "\t" + key + "\t" + esc(detail.substr(0, 6000)) + "\n";
    if (write(violFd, l.data(), l.size()) < 0) {}
}
void Ctx::sample(const string &s) {
    if (sh->nsamp.fetch_add(1) > 6) return;
    string l = esc(s.substr(0, 1500)) + "\n"; if (write(sampFd, l.data(), l.size()) < 0) {}
}
static std::map<string, Factory> &registry() { static std::map<string, Factory> m; return m; }
void registerProperty(const string &id, Factory f) { registry()[id] = f; }
vector<Driver> driversOf(const string &id, const string &tier) { return registry().at(id)(tier); }

// Once a violation is known the verdict is settled: the rest of the space is explored only as long as
// that is cheap (no flood of timeouts, not much longer than a run without violations takes).
static std::chrono::steady_clock::time_point g_start; static bool g_stopFirst = false;
static bool settled() {
    if (sh->cnt[C_VIOL] == 0) return false;
    return g_stopFirst || sh->timeouts >= 24 || std::chrono::steady_clock::now() - g_start > std::chrono::seconds(420);
}
static void onAlarm(int) { _exit(77); }
static void rmScratch(const string &d) { if (d.find("/mc-") == string::npos) return; string c = "rm -rf '" + d + "'"; if (system(c.c_str())) {} }

static void workerLoop(Driver &d, i64 N) {
    signal(SIGALRM, onAlarm);
    i64 done = 0;
    while (done < d.recycle) {
        i64 b = sh->next.fetch_add(d.chunk); if (b >= N) { sh->cur[g_slot] = -1; _exit(0); }
        for (i64 i = b; i < std::min<i64>(N, b + d.chunk); i++) {
            if (settled()) { sh->cur[g_slot] = -1; _exit(0); }
            sh->cur[g_slot] = i; alarm(d.timeout);
            Ctx c; c.index = i; d.body(i, c); sh->cnt[C_INST]++; done++;
        }
    }
    sh->cur[g_slot] = -1; _exit(5);      // 5: please refork
}
static void runDriver(Driver &d, int J, Ctx &top) {
    i64 N = d.size(); sh->next = 0;
    std::map<pid_t, int> slot; int live = 0;
    auto spawn = [&](int s, i64 lo, i64 hi) {
        fflush(stdout); fflush(stderr);
        pid_t p = fork();
        if (p == 0) {
            g_slot = s; signal(SIGALRM, onAlarm);
            for (i64 i = lo; i < hi && !settled(); i++) { sh->cur[s] = i; alarm(d.timeout); Ctx c; c.index = i; d.body(i, c); sh->cnt[C_INST]++; }
            workerLoop(d, N);
        }
        slot[p] = s; live++;
    };
    for (int s = 0; s < J; s++) spawn(s, 0, 0);
    int deaths = 0;
    while (live > 0) {
        int stt; pid_t p = wait(&stt); if (p < 0) break;
        if (!slot.count(p)) continue;
        int s = slot[p]; slot.erase(p); live--;
        rmScratch(g_base + "/w" + std::to_string(p));
        if (WIFEXITED(stt) && WEXITSTATUS(stt) == 0) continue;
        if (WIFEXITED(stt) && WEXITSTATUS(stt) == 5) { spawn(s, 0, 0); continue; }
        i64 i = sh->cur[s]; Ctx c; c.index = i; deaths++; sh->cnt[C_INST]++;
        std::ostringstream o;
        if (WIFSIGNALED(stt)) o << "the program was killed by signal " << WTERMSIG(stt) << " (crash)";
        else if (WEXITSTATUS(stt) == 77) sh->timeouts++, o << "the program did not finish within " << d.timeout << " s (non-termination)";
        else o << "the program ended the process with exit status " << WEXITSTATUS(stt);
        string desc = i >= 0 && d.describe ? d.describe(i) : "";
        c.violation("crash:" + hashKey(desc), o.str() + "\n" + desc);
        // after many crashes the rest of the space is abandoned: the verdict is already "violated"
        if (deaths < 100 && !settled()) spawn(s, i + 1, std::min<i64>(N, (i / d.chunk + 1) * d.chunk));
    }
}
}
using namespace mc;
int main(int argc, char **argv) {
    // mc ID tier OUTDIR [--jobs N] [--replay DRIVER:INDEX] [--seconds]
    if (argc >= 2 && !strcmp(argv[1], "--slugs")) { std::ios::sync_with_stdio(true); return slugs_main(argc - 1, (const char **)argv + 1); }   // the program itself, for the Python engines
    if (argc < 4) { for (auto &p : registry()) printf("%s\n", p.first.c_str()); return 2; }
    string id = argv[1], tier = argv[2], out = argv[3]; int J = 8; string replay;
    for (int i = 4; i < argc; i++) { string a = argv[i]; if (a == "--jobs") J = atoi(argv[++i]); else if (a == "--replay") replay = argv[++i]; }
    if (!registry().count(id)) { fprintf(stderr, "unknown property %s\n", id.c_str()); return 2; }
    sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_base = (access("/dev/shm", W_OK) == 0 ? string("/dev/shm") : string("/tmp")) + "/mc-" + std::to_string(getpid());
    mkdir(g_base.c_str(), 0700);
    violFd = open((out + "/viol.tsv").c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
    sampFd = open((out + "/samples.txt").c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
    auto t0 = g_start = std::chrono::steady_clock::now(); g_stopFirst = getenv("MC_STOP") != nullptr;
    vector<Driver> ds = registry()[id](tier);
    std::ostringstream js; js << "{\"drivers\":[";
    Ctx top;
    if (!replay.empty()) {
        size_t c = replay.find(':'); string dn = replay.substr(0, c); i64 ix = atoll(replay.c_str() + c + 1);
        for (auto &d : ds) if (d.id == dn) { d.size(); if (d.describe) printf("%s\n", d.describe(ix).c_str()); fflush(stdout); Ctx cc; cc.index = ix; cc.verbose = true; d.body(ix, cc); }
        rmScratch(g_base); return counter(C_VIOL) ? 1 : 0;
    }
    bool first = true;
    for (auto &d : ds) {
        auto t1 = std::chrono::steady_clock::now(); i64 v0 = counter(C_VIOL), i0 = counter(C_INST), r0 = counter(C_RUNS);
        string mark = "#driver\t" + d.id + "\n"; if (write(violFd, mark.data(), mark.size()) < 0) {}
        sh->nsamp = 5 - 0; sh->nsamp = 3;
        runDriver(d, J, top);
        double w = std::chrono::duration<double>(std::chrono::steady_clock::now() - t1).count();
        if (!first) js << ","; first = false;
        js << "{\"id\":\"" << d.id << "\",\"space\":" << d.size() << ",\"instances\":" << counter(C_INST) - i0 << ",\"runs\":" << counter(C_RUNS) - r0 << ",\"violations\":" << counter(C_VIOL) - v0 << ",\"wall_s\":" << w << "}";
        fprintf(stderr, "[%s/%s] space=%lld instances=%lld runs=%lld violations=%lld %.1fs\n", id.c_str(), d.id.c_str(), (long long)d.size(), (long long)(counter(C_INST) - i0), (long long)(counter(C_RUNS) - r0), (long long)(counter(C_VIOL) - v0), w);
    }
    js << "],\"counters\":{";
    const char *nm[] = {"instances", "runs", "states", "transitions", "traces", "nontrivial", "a", "b", "c", "d", "violations", "reorderings"};
    for (int i = 0; i < C_NUM; i++) js << (i ? "," : "") << "\"" << nm[i] << "\":" << counter((Counter)i);
    js << "},\"wall_s\":" << std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() << ",\"notes\":{";
    first = true; for (auto &p : g_notes) { js << (first ? "" : ",") << "\"" << p.first << "\":\"" << esc(p.second) << "\""; first = false; }
    js << "}}\n";
    std::ofstream(out + "/result.json") << js.str();
    rmScratch(g_base);
    return counter(C_VIOL) ? 1 : 0;
}
