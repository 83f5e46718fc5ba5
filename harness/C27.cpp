// C27: every schedule of two or three threads calling read-only operations on shared objects.
// A combination of thread programs is explored by re-executing it, each time in a fresh
// process, under every schedule within the bound; memory accesses are checked for races
// (happens-before) and every result must be the one the call returns when run alone.
#include "C27_ops.hpp"
#include "C27_rt.hpp"
#include "mc.hpp"
#include <deque>
#include <errno.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
const char* mc::PROPERTY = "C27";
using mc::Ctx;
struct Call { bool surf; int op, arg; };
constexpr int CAP = 2048, MAXC = 3;
struct Shared { rt::Report rep; int n[rt::MAXT][MAXC]; double out[rt::MAXT][MAXC][CAP]; };
struct Job { std::vector<std::vector<Call>> prog; const void* obj; Shared* sh; };
static Shared* shm_area()
{
    static Shared* s = nullptr; static pid_t owner = 0; // one per worker process
    if (!s || owner != getpid()) { s = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); owner = getpid(); }
    return s;
}
static void thread_body(void* a, int t)
{
    Job& j = *(Job*)a; auto& p = j.prog[t - 1];
    for (size_t i = 0; i < p.size(); ++i)
    {
        if (i) rt::call_boundary();
        j.sh->n[t][i] = ops::call(j.obj, p[i].surf, p[i].op, p[i].arg, j.sh->out[t][i], CAP);
    }
}
static std::string run_schedule(const std::vector<std::vector<Call>>& prog, int variant, const std::vector<rt::Dev>& devs)
{
    Shared* s = shm_area(); std::memset(&s->rep, 0, offsetof(rt::Report, points)); std::memset(s->n, 0, sizeof s->n);
    pid_t pid = fork(); if (pid < 0) { perror("fork"); std::_Exit(3); }
    if (pid == 0)
    {
        rlimit rl{20, 25}; setrlimit(RLIMIT_CPU, &rl); rlimit nc{0, 0}; setrlimit(RLIMIT_CORE, &nc);
        Job j{prog, nullptr, s};
        rt::set_report(&s->rep, devs.data(), (int)devs.size());
        rt::begin_main(); j.obj = ops::make(variant);
        rt::run((int)prog.size(), thread_body, &j);
        _exit(0);
    }
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st) && WEXITSTATUS(st) == 7) { fprintf(stderr, "internal error of the scheduler\n"); std::_Exit(3); }
    if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL ? "does not terminate" : "crashes (signal " + std::to_string(WTERMSIG(st)) + ")";
    if (WEXITSTATUS(st)) return "exits with status " + std::to_string(WEXITSTATUS(st));
    return "";
}
static std::string result(int t, int i) { Shared* s = shm_area(); return std::string((const char*)s->out[t][i], s->n[t][i] * 8); }
static std::map<std::string, std::string> memo;
static const std::string& alone(Ctx& c, const Call& k, int variant)
{
    std::string key = std::to_string(k.surf) + "/" + std::to_string(k.op) + "/" + std::to_string(k.arg) + "/" + std::to_string(variant);
    auto it = memo.find(key); if (it != memo.end()) return it->second;
    std::string e = run_schedule({{k}}, variant, {});
    MC_CHECK(c, e.empty(), "%s, alone: %s", ops::name(k.surf, k.op), e.c_str());
    return memo[key] = result(1, 0);
}
static std::string text(const std::vector<std::vector<Call>>& p)
{
    std::string r;
    for (size_t t = 0; t < p.size(); ++t) { r += (t ? " || " : "") + std::string("thread ") + std::to_string(t + 1) + ": "; for (size_t i = 0; i < p[t].size(); ++i) r += (i ? "; " : "") + std::string(p[t][i].surf ? "surface " : "curve ") + ops::name(p[t][i].surf, p[t][i].op) + " #" + std::to_string(p[t][i].arg); }
    return r;
}
static std::string devtext(const std::vector<rt::Dev>& d) { std::string r; for (auto& x : d) r += " " + std::to_string(x.pos) + ":" + std::to_string(x.alt); return r; }
// all schedules with at most `bound` preemptions (switches at call boundaries, at blocking and at
// thread ends are free), in order of their number of preemptions
static void explore(Ctx& c, const std::vector<std::vector<Call>>& prog, int variant, int bound, int cap)
{
    for (auto& t : prog) for (auto& k : t) alone(c, k, variant);
    std::vector<std::deque<std::vector<rt::Dev>>> q(bound + 1); q[0].push_back({});
    Shared* s = shm_area(); int runs = 0;
    for (int b = 0; b <= bound; ++b)
        while (!q[b].empty())
        {
            if (runs >= cap) { c.outcome("combination cut off at %d schedules", cap); return; }
            auto dev = q[b].front(); q[b].pop_front(); ++runs;
            std::string e = run_schedule(prog, variant, dev);
            auto bad = [&](const std::string& m) { c.fail("{%s} on object %d under schedule [%s ]: %s", text(prog).c_str(), variant, devtext(dev).c_str(), m.c_str()); };
            if (!e.empty()) bad(e);
            if (s->rep.raced) bad(s->rep.race);
            if (s->rep.deadlock) bad("deadlock");
            for (size_t t = 0; t < prog.size(); ++t) for (size_t i = 0; i < prog[t].size(); ++i)
            {
                const std::string& w = alone(c, prog[t][i], variant);
                if (result((int)t + 1, (int)i) != w) bad("call " + std::to_string(i + 1) + " of thread " + std::to_string(t + 1) + " returns another result than alone");
            }
            c.step((long)(prog.size())); c.state(s->rep.trace_hash ^ mc::mix(std::hash<std::string>()(text(prog)), variant));
            c.outcome("schedules"); if (s->rep.syncops) c.outcome("schedules with synchronisation operations");
            size_t from = dev.empty() ? 0 : dev.back().pos + 1;
            for (size_t i = from; i < (size_t)s->rep.npoints; ++i)
            {
                auto& p = s->rep.points[i];
                for (int a = 1; a < p.n; ++a) { int cost = p.free_ ? 0 : 1; if (b + cost > bound) break; auto d = dev; d.push_back({(int)i, a}); q[b + cost].push_back(d); }
            }
        }
}
static int nprog(bool surf) { return ops::count(surf); }
static void pairs(Ctx& c, bool s1, bool s2)
{
    int i = c.choose(nprog(s1), "op of thread 1"); int lo = s1 == s2 ? i : 0; int j = lo + c.choose(nprog(s2) - lo, "op of thread 2"); c.shard();
    int variant = c.choose(2, "object"); int same = c.choose(2, "same arguments");
    explore(c, {{{s1, i, 0}, {s1, i, 1}}, {{s2, j, same ? 0 : 2}, {s2, j, 1}}}, variant, c.thorough ? 3 : 2, c.thorough ? 2000 : 60);
}
static void mixes(Ctx& c, bool surf)
{
    int n = nprog(surf); int i = c.choose(n, "op 1 of thread 1"), j = c.choose(n, "op 2 of thread 1"); c.shard(); int k = c.choose(n, "op of thread 2");
    explore(c, {{{surf, i, 0}, {surf, j, 1}}, {{surf, k, 2}}}, 0, c.thorough ? 2 : 1, c.thorough ? 200 : 8);
}
static void triples(Ctx& c, bool surf)
{
    int n = nprog(surf); int i = c.choose(n, "op of thread 1"), j = i + c.choose(n - i, "op of thread 2"); c.shard(); int k = j + c.choose(n - j, "op of thread 3");
    explore(c, {{{surf, i, 0}}, {{surf, j, 1}}, {{surf, k, 2}}}, 0, c.thorough ? 2 : 1, c.thorough ? 300 : 10);
}
std::vector<mc::Body> mc::bodies()
{
    return {{"curve_pairs", [](Ctx& c) { pairs(c, false, false); }}, {"surface_pairs", [](Ctx& c) { pairs(c, true, true); }}, {"curve_surface_pairs", [](Ctx& c) { pairs(c, false, true); }},
            {"curve_mixes", [](Ctx& c) { mixes(c, false); }}, {"surface_mixes", [](Ctx& c) { mixes(c, true); }},
            {"curve_triples", [](Ctx& c) { triples(c, false); }}, {"surface_triples", [](Ctx& c) { triples(c, true); }}};
}
