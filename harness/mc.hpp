// Stateless bounded model checker for the real libnurbs code.
//
// A harness is a set of "bodies". A body is a deterministic closed driver: every
// decision it takes (structure of the object, operation, argument, fault position)
// goes through Ctx::choose. The explorer enumerates ALL choice sequences depth first
// (re-executing the body from the start for each), so a finished run has covered the
// complete bounded space. Nothing is sampled.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace mc
{
    struct Violation { std::string msg; };
    struct Skip {};   // choice prefix belongs to another shard
    struct Prune {};  // state already expanded with at least this much depth left

    inline uint64_t mix(uint64_t h, uint64_t v)
    {
        h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
        h *= 0xff51afd7ed558ccdull;
        h ^= h >> 32;
        return h;
    }
    inline uint64_t mixd(uint64_t h, double d)
    {
        uint64_t b;
        if (d == 0) d = 0; // -0 == +0
        std::memcpy(&b, &d, 8);
        return mix(h, b);
    }

    constexpr int MAX_CHOICES = 512;

    struct Shm // one per worker process, shared with the monitor
    {
        volatile int body;
        volatile int nchoice;
        volatile int choice[MAX_CHOICES];
        volatile long execs;      // complete executions
        volatile long steps;      // transitions = calls of the code under test
        volatile int done;        // worker ran to its end
        volatile int violated;
        volatile int capped;
        char msg[4096];
    };

    class Ctx
    {
    public:
        bool thorough = false;
        bool verbose = false;      // replay: record a readable trace
        std::string trace;

        // ---- choices -------------------------------------------------------
        int choose(int n, const char* label = "")
        {
            if (n <= 0) { fprintf(stderr, "mc: empty choice %s\n", label); std::_Exit(3); }
            int pos = (int)ch.size();
            int v = pos < (int)script.size() ? script[pos] : 0;
            if (v >= n) { fprintf(stderr, "mc: replay divergence at choice %d (%s): %d of %d\n", pos, label, v, n); std::_Exit(3); }
            if (pos >= MAX_CHOICES) { fprintf(stderr, "mc: too many choices\n"); std::_Exit(3); }
            ch.push_back(v);
            ar.push_back(n);
            shm->choice[pos] = v;
            shm->nchoice = pos + 1;
            if (verbose && *label) log("%s := %d/%d", label, v, n);
            return v;
        }
        template <class T>
        const T& pick(const std::vector<T>& opts, const char* label = "")
        {
            return opts[choose((int)opts.size(), label)];
        }
        int range(int lo, int hi, const char* label = "") { return lo + choose(hi - lo + 1, label); }
        bool flip(const char* label = "") { return choose(2, label) == 1; }

        // false when an earlier execution already passed this point with the same choices, so
        // that a (deterministic) check at this point need not be repeated
        bool fresh() const { return replaying || first || changed < (int)ch.size(); }

        // Distribute the prefixes reaching this point over the worker processes.
        void shard()
        {
            if (replaying) return;
            if (changed < (int)ch.size() || first)
            {
                uint64_t k = shard_counter++;
                if ((mix(k, 77) >> 8) % nshards != (uint64_t)shard_id) throw Skip{};
            }
        }
        // Explicit-state pruning: `h` must determine all futures of this point.
        void prune_if_seen(uint64_t h, int depth_left)
        {
            if (replaying) return;
            if (!(changed < (int)ch.size() || first)) return;
            auto it = expanded.find(h);
            if (it != expanded.end() && it->second >= depth_left) { ++pruned; throw Prune{}; }
            expanded[h] = depth_left;
        }
        void clear_expanded() { if (!replaying && (changed < (int)ch.size() || first)) expanded.clear(); }

        // ---- bookkeeping ---------------------------------------------------
        void step(long n = 1) { shm->steps = shm->steps + n; }
        void state(uint64_t h) { states.insert(mix(h, 0x5eed + (uint64_t)body)); }
        void outcome(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
        {
            char buf[256];
            va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
            ++outcomes[buf];
        }
        void log(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
        {
            if (!verbose) return;
            char buf[4096];
            va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
            trace += buf; trace += '\n';
            if (trace_fd >= 0) dprintf(trace_fd, "%s\n", buf);
        }
        [[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
        {
            char buf[4096];
            va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
            throw Violation{buf};
        }

        // ---- explorer internals -------------------------------------------
        std::vector<int> script, ch, ar;
        int changed = -1; bool first = true; bool replaying = false;
        int body = 0; int shard_id = 0; int nshards = 1; uint64_t shard_counter = 0;
        long pruned = 0; int trace_fd = -1;
        Shm* shm = nullptr;
        std::unordered_set<uint64_t> states;
        std::unordered_map<uint64_t, int> expanded;
        std::map<std::string, long> outcomes;
    };

    struct Body { const char* name; std::function<void(Ctx&)> fn; };

    // Provided by the harness:
    extern const char* PROPERTY;
    std::vector<Body> bodies();
}

#define MC_CHECK(c, cond, ...) do { if (!(cond)) (c).fail(__VA_ARGS__); } while (0)
