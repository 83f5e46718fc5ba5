// Monitor: forks the worker processes, watches for crashes and hangs, replays every
// violation before reporting it, and writes the coverage record.
#include "mc.hpp"
#include <array>
#include <chrono>
#include <fcntl.h>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <sstream>

extern "C" const char* __asan_default_options()
{
    return "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:hard_rss_limit_mb=3500:"
           "max_malloc_fill_size=16777216:malloc_fill_byte=255:detect_stack_use_after_return=1:"
           "handle_abort=0:alloc_dealloc_mismatch=0:max_allocation_size_mb=2048:symbolize=1";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:abort_on_error=1"; }

using namespace mc;
using Clock = std::chrono::steady_clock;
static double since(Clock::time_point t) { return std::chrono::duration<double>(Clock::now() - t).count(); }

static std::string outdir = ".";
static int nworkers = 8;
static double deadline = 1e9;
static double hang_s = 30;
static bool thorough = false;
static Clock::time_point t0;
static std::string only_body;

static std::string jesc(const std::string& s)
{
    std::string r;
    for (unsigned char ch : s)
    {
        if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
        else if (ch == '\n') r += "\\n";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; }
        else r += ch;
    }
    return r;
}
static std::string slurp(const std::string& f, size_t cap = 1 << 20)
{
    std::ifstream in(f, std::ios::binary);
    std::stringstream ss; ss << in.rdbuf();
    std::string s = ss.str();
    if (s.size() > cap) s.resize(cap);
    return s;
}

// One execution. Returns 0 ok, 1 violation (msg set).
static int run_once(Ctx& c, const Body& b, std::string& msg)
{
    c.ch.clear(); c.ar.clear();
    c.shm->nchoice = 0;
    try { b.fn(c); return 0; }
    catch (Violation& v) { msg = v.msg; return 1; }
    catch (Skip&) { return 2; }
    catch (Prune&) { return 3; }
    catch (std::exception& e) { msg = std::string("unexpected exception: ") + e.what(); return 1; }
    catch (...) { msg = "unexpected exception of unknown type"; return 1; }
}

static void worker(int id, Shm* shm)
{
    Ctx c; c.shm = shm; c.shard_id = id; c.nshards = nworkers; c.thorough = thorough;
    auto bs = bodies();
    std::string sampl;
    std::ostringstream perbody;
    for (int b = 0; b < (int)bs.size(); ++b)
    {
        if (!only_body.empty() && only_body != bs[b].name) continue;
        shm->body = b; c.body = b;
        c.script.clear(); c.changed = -1; c.first = true; c.shard_counter = 0; c.expanded.clear();
        long e0 = shm->execs, s0 = shm->steps; size_t st0 = c.states.size();
        long next_sample = 1;
        while (true)
        {
            std::string msg;
            int r = run_once(c, bs[b], msg);
            if (r == 1)
            {
                snprintf(shm->msg, sizeof shm->msg, "%s", msg.c_str());
                shm->violated = 1;
                _exit(0);
            }
            if (r == 0 || r == 3)
            {
                shm->execs = shm->execs + 1;
                if (r == 0 && shm->execs - e0 >= next_sample && next_sample < 1000000)
                {
                    std::ostringstream s; s << b;
                    for (int v : c.ch) s << ' ' << v;
                    sampl += s.str() + "\n"; next_sample *= 1000;
                }
            }
            // advance to the next choice sequence
            int i = (int)c.ch.size() - 1;
            while (i >= 0 && c.ch[i] + 1 >= c.ar[i]) --i;
            if (i < 0) break;
            c.script.assign(c.ch.begin(), c.ch.begin() + i + 1);
            c.script[i]++;
            c.changed = i; c.first = false;
            if ((shm->execs & 63) == 0 && since(t0) > deadline) { shm->capped = 1; break; }
        }
        perbody << "B " << bs[b].name << ' ' << shm->execs - e0 << ' ' << shm->steps - s0 << ' ' << c.states.size() - st0 << "\n";
    }
    std::ofstream f(outdir + "/w" + std::to_string(id) + ".txt");
    f << perbody.str();
    for (auto& [k, v] : c.outcomes) f << "O " << v << ' ' << k << "\n";
    f << "P " << c.pruned << "\n";
    f.close();
    std::ofstream fs(outdir + "/s" + std::to_string(id) + ".txt"); fs << sampl; fs.close();
    FILE* h = fopen((outdir + "/h" + std::to_string(id) + ".bin").c_str(), "wb");
    for (uint64_t v : c.states) fwrite(&v, 8, 1, h);
    fclose(h);
    shm->done = 1;
    _exit(0);
}

static Shm* new_shm()
{
    return (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}

struct Replay { bool bad = false; bool hang = false; std::string msg, trace, err; };

static Replay replay(int body, const std::vector<int>& choices, double limit)
{
    Replay r;
    Shm* shm = new_shm();
    std::string tf = outdir + "/replay.trace", ef = outdir + "/replay.err";
    pid_t pid = fork();
    if (pid == 0)
    {
        int fd = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 2);
        Ctx c; c.shm = shm; c.thorough = thorough; c.replaying = true; c.verbose = true; c.script = choices; c.body = body;
        c.trace_fd = open(tf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        std::string msg;
        int k = run_once(c, bodies()[body], msg);
        if (k == 1) { snprintf(shm->msg, sizeof shm->msg, "%s", msg.c_str()); shm->violated = 1; }
        shm->done = 1;
        _exit(0);
    }
    auto s = Clock::now(); int st = 0;
    while (waitpid(pid, &st, WNOHANG) == 0)
    {
        if (since(s) > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); r.hang = true; break; }
        usleep(2000);
    }
    r.trace = slurp(tf, 200000); r.err = slurp(ef, 6000);
    if (r.hang) { r.bad = true; r.msg = "no termination within " + std::to_string((int)limit) + " s"; }
    else if (shm->violated) { r.bad = true; r.msg = shm->msg; }
    else if (!shm->done)
    {
        r.bad = true;
        r.msg = WIFSIGNALED(st) ? "crash: signal " + std::to_string(WTERMSIG(st)) : "crash: exit " + std::to_string(WEXITSTATUS(st));
        std::istringstream is(r.err); std::string l; int n = 0;
        while (std::getline(is, l) && n < 6) if (l.find("ERROR") != l.npos || l.find("ssert") != l.npos || l.find("runtime error") != l.npos || l.find("SUMMARY") != l.npos) { r.msg += " | " + l; ++n; }
    }
    munmap(shm, sizeof(Shm));
    return r;
}

static void write_violation(int body, const std::vector<int>& ch, const Replay& r, const char* how)
{
    std::ofstream f(outdir + "/violation.json");
    f << "{\"property\":\"" << PROPERTY << "\",\"body\":\"" << bodies()[body].name << "\",\"body_index\":" << body << ",\"choices\":[";
    for (size_t i = 0; i < ch.size(); ++i) f << (i ? "," : "") << ch[i];
    f << "],\"tier\":\"" << (thorough ? "thorough" : "quick") << "\",\"found_by\":\"" << how << "\",\"message\":\"" << jesc(r.msg) << "\",\"trace\":\"" << jesc(r.trace) << "\",\"stderr\":\"" << jesc(r.err) << "\"}\n";
}

int main(int argc, char** argv)
{
    t0 = Clock::now();
    std::vector<int> rep; int rep_body = -1;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        if (a == "--out") outdir = argv[++i];
        else if (a == "--thorough") thorough = true;
        else if (a == "--workers") nworkers = atoi(argv[++i]);
        else if (a == "--deadline") deadline = atof(argv[++i]);
        else if (a == "--hang") hang_s = atof(argv[++i]);
        else if (a == "--body") only_body = argv[++i];
        else if (a == "--replay") { rep_body = atoi(argv[++i]); while (i + 1 < argc) rep.push_back(atoi(argv[++i])); }
        else if (a == "--list") { for (auto& b : bodies()) puts(b.name); return 0; }
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
    }
    mkdir(outdir.c_str(), 0755);
    if (rep_body >= 0)
    {
        Replay r = replay(rep_body, rep, 120);
        fputs(r.trace.c_str(), stdout);
        if (!r.err.empty()) fputs(r.err.c_str(), stdout);
        printf("%s\n", r.bad ? ("REPRODUCED: " + r.msg).c_str() : "not reproduced");
        return r.bad ? 1 : 0;
    }

    struct W { pid_t pid; Shm* shm; long last_e = -1, last_s = -1; int last_n = -1; Clock::time_point beat; bool live = true; int st = 0; bool hung = false; };
    std::vector<W> ws;
    for (int i = 0; i < nworkers; ++i)
    {
        W w; w.shm = new_shm(); w.beat = Clock::now();
        fflush(nullptr);
        w.pid = fork();
        if (w.pid == 0)
        {
            int fd = open((outdir + "/e" + std::to_string(i) + ".txt").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
            dup2(fd, 2);
            worker(i, w.shm);
        }
        ws.push_back(w);
    }
    int live = nworkers; bool stop = false; int bad_worker = -1;
    while (live > 0)
    {
        usleep(5000);
        for (int i = 0; i < nworkers; ++i)
        {
            W& w = ws[i];
            if (!w.live) continue;
            int st;
            if (waitpid(w.pid, &st, WNOHANG) == w.pid)
            {
                w.live = false; --live; w.st = st;
                if (!w.shm->done && bad_worker < 0) { bad_worker = i; stop = true; }
                continue;
            }
            if (w.shm->execs != w.last_e || w.shm->steps != w.last_s || w.shm->nchoice != w.last_n)
            {
                w.last_e = w.shm->execs; w.last_s = w.shm->steps; w.last_n = w.shm->nchoice; w.beat = Clock::now();
            }
            else if (since(w.beat) > hang_s && !stop)
            {
                w.hung = true; kill(w.pid, SIGKILL); waitpid(w.pid, &st, 0); w.live = false; --live; w.st = st;
                if (bad_worker < 0) { bad_worker = i; stop = true; }
            }
        }
        if (stop)
        {
            for (auto& w : ws) if (w.live) { kill(w.pid, SIGKILL); int st; waitpid(w.pid, &st, 0); w.live = false; --live; }
        }
    }

    if (bad_worker >= 0)
    {
        W& w = ws[bad_worker];
        std::vector<int> ch;
        for (int i = 0; i < w.shm->nchoice; ++i) ch.push_back((int)w.shm->choice[i]);
        int b = w.shm->body;
        Replay r1 = replay(b, ch, w.hung ? 4 * hang_s : 120);
        if (r1.bad)
        {
            Replay r2 = w.hung ? r1 : replay(b, ch, 120);
            const char* how = w.shm->violated ? "oracle" : w.hung ? "hang" : "crash";
            if (!r2.bad) r1.msg += " (not in every repetition: the result varies between identical runs)";
            write_violation(b, ch, r1, how);
            printf("MC-VIOLATION %s body=%s: %s\n", PROPERTY, bodies()[b].name, r1.msg.c_str());
            return 1;
        }
        // Not reproducible on its own: the failure may need the executions before it. Only the
        // library runs between executions, so carried-over state is itself a defect; re-run this shard.
        fprintf(stderr, "mc: worker %d failed (violated=%d hung=%d status=%x msg=%s) but the single execution passes; re-running its shard\n",
                bad_worker, w.shm->violated, w.hung, w.st, w.shm->msg);
        Shm* shm = new_shm();
        pid_t pid = fork();
        if (pid == 0)
        {
            int fd = open((outdir + "/e_again.txt").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 2);
            worker(bad_worker, shm);
        }
        int st; waitpid(pid, &st, 0);
        if (!shm->done && shm->body == b && shm->nchoice == (int)ch.size() && !w.hung)
        {
            Replay r; r.bad = true; r.msg = std::string("depends on the calls made before it (state carried over between independent calls): ") + (shm->violated ? shm->msg : "crash");
            r.err = slurp(outdir + "/e_again.txt", 6000);
            write_violation(b, ch, r, "shard");
            printf("MC-VIOLATION %s body=%s: %s\n", PROPERTY, bodies()[b].name, r.msg.c_str());
            return 1;
        }
        if (w.shm->violated) // the drivers are deterministic, so the code under test is not
        {
            Replay r; r.bad = true; r.msg = std::string("the result varies between identical runs: ") + w.shm->msg;
            write_violation(b, ch, r, "varies");
            printf("MC-VIOLATION %s body=%s: %s\n", PROPERTY, bodies()[b].name, r.msg.c_str());
            return 1;
        }
        fprintf(stderr, "mc: failure did not recur; no verdict\n%s\n", slurp(outdir + "/e" + std::to_string(bad_worker) + ".txt", 4000).c_str());
        return 2;
    }

    // merge coverage
    long execs = 0, steps = 0, pruned = 0; bool capped = false;
    std::map<std::string, std::array<long, 3>> per; std::map<std::string, long> outc;
    std::unordered_set<uint64_t> st;
    std::vector<std::string> samples;
    for (int i = 0; i < nworkers; ++i)
    {
        execs += ws[i].shm->execs; steps += ws[i].shm->steps; capped |= ws[i].shm->capped != 0;
        std::ifstream f(outdir + "/w" + std::to_string(i) + ".txt"); std::string l;
        while (std::getline(f, l))
        {
            std::istringstream is(l); char k; is >> k;
            if (k == 'B') { std::string n; long a, b, c; is >> n >> a >> b >> c; auto& p = per[n]; p[0] += a; p[1] += b; p[2] += c; }
            else if (k == 'O') { long v; is >> v; std::string n; std::getline(is, n); outc[n.substr(1)] += v; }
            else if (k == 'P') { long v; is >> v; pruned += v; }
        }
        std::string h = slurp(outdir + "/h" + std::to_string(i) + ".bin", (size_t)4 << 30);
        for (size_t p = 0; p + 8 <= h.size(); p += 8) { uint64_t v; memcpy(&v, h.data() + p, 8); st.insert(v); }
        std::ifstream s(outdir + "/s" + std::to_string(i) + ".txt");
        while (std::getline(s, l)) samples.push_back(l);
    }
    // determinism: replay samples twice, the traces must agree
    std::string sj; int ns = 0; std::map<int, int> seen_body;
    for (auto& l : samples)
    {
        std::istringstream is(l); int b; is >> b; std::vector<int> ch; int v; while (is >> v) ch.push_back(v);
        if (seen_body[b]++ >= 2 || ns >= 12) continue;
        Replay a = replay(b, ch, 120), d = replay(b, ch, 120);
        if (a.bad || d.bad || a.trace != d.trace) { fprintf(stderr, "mc: sample replay diverged: %s\n", a.msg.c_str()); return 2; }
        if (a.trace.size() > 1500) a.trace = a.trace.substr(0, 1500) + "...";
        sj += std::string(ns ? "," : "") + "{\"body\":\"" + bodies()[b].name + "\",\"trace\":\"" + jesc(a.trace) + "\"}";
        ++ns;
    }
    std::ofstream f(outdir + "/coverage.json");
    f << "{\"executions\":" << execs << ",\"transitions\":" << steps << ",\"states\":" << st.size() << ",\"pruned\":" << pruned
      << ",\"exhaustive\":" << (capped ? "false" : "true") << ",\"per_body\":{";
    bool first = true;
    for (auto& [n, p] : per) { f << (first ? "" : ",") << "\"" << n << "\":{\"executions\":" << p[0] << ",\"transitions\":" << p[1] << ",\"states_sum_over_workers\":" << p[2] << "}"; first = false; }
    f << "},\"outcomes\":{"; first = true;
    for (auto& [n, p] : outc) { f << (first ? "" : ",") << "\"" << jesc(n) << "\":" << p; first = false; }
    f << "},\"samples\":[" << sj << "],\"replayed_twice\":" << ns << ",\"wall_s\":" << since(t0) << "}\n";
    f.close();
    printf("MC-OK %s executions=%ld transitions=%ld states=%zu pruned=%ld exhaustive=%d wall=%.1fs\n", PROPERTY, execs, steps, st.size(), pruned, !capped, since(t0));
    return capped ? 3 : 0;
}
