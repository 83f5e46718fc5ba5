// Controlled scheduler and happens-before race detector for code compiled with
// -fsanitize=thread (the compiler's calls land in C27_rt.cpp instead of the TSan runtime).
#pragma once
#include <cstdint>
namespace rt
{
    constexpr int MAXT = 4;          // thread 0 builds the objects, 1..3 run the programs
    constexpr int MAXPOINTS = 1 << 16;
    struct Dev { int pos, alt; };    // deviation from the default choice (go on with the running thread)
    struct Point { uint8_t n, chosen, free_; };
    struct Report                     // shared with the explorer
    {
        int finished, raced, deadlock, overflow;
        int npoints;
        long accesses, syncops, switches;
        uint64_t trace_hash;
        char race[1024];
        Point points[MAXPOINTS];
    };
    void set_report(Report* r, const Dev* devs, int ndevs);
    // runs body(arg, tid) in threads 1..n under the scheduler; setup runs as thread 0
    void run(int n, void (*body)(void*, int), void* arg);
    void begin_main();               // thread 0 starts: its allocations and accesses are tracked
    void call_boundary();            // free scheduling point between two calls
}
