// Runtime behind the compiler's thread-sanitizer instrumentation: instead of watching free
// running threads it (1) lets exactly one thread run at a time and turns every synchronisation
// operation into a scheduling point controlled by the explorer, (2) checks every memory access
// of the library against all earlier ones with vector clocks. No library headers, no STL.
#include "C27_rt.hpp"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

typedef unsigned char u8; typedef unsigned short u16; typedef unsigned int u32; typedef unsigned long long u64; typedef __int128 i128;
using namespace rt;

namespace
{
    struct VC { u32 c[MAXT]; };
    void join(VC& a, const VC& b) { for (int i = 0; i < MAXT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
    enum St { NONE, READY, BLOCKED, DONE };
    struct Th { St st; const void* on; VC vc, pend_acq, fence_rel; int baton; u8* lo; u8* hi; int spin; pthread_t h; bool yielded; };
    Th T[MAXT]; int NT = 0; int cur = 0; bool active = false; int done_baton = 0;
    __thread int me = -1;             // -1: not under control
    __thread int inside = 0;
    Report* R = nullptr; const Dev* devs = nullptr; int ndevs = 0, idev = 0;
    void (*prog)(void*, int); void* prog_arg;

    // ---- arenas: one per thread, never reused, at fixed addresses -----------------------------
    constexpr size_t ASZ = size_t(192) << 20;
    u8* arena = nullptr; size_t used[MAXT];
    struct Acc { u32 w, r; u8 wm, rm; u8 pad[2]; };
    struct Cell { Acc a[MAXT]; };
    Cell* shadow_arena = nullptr; Cell* shadow_glob = nullptr;
    u8 *g_lo = nullptr, *g_hi = nullptr;
}
extern "C" char __data_start[] __attribute__((weak)); extern "C" char _end[];

static void fatal(const char* m) { write(2, m, strlen(m)); write(2, "\n", 1); _exit(7); }
static void* reserve(size_t n) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) fatal("mmap"); return p; }
__attribute__((constructor)) static void init_regions()
{
    arena = (u8*)reserve(ASZ * MAXT); shadow_arena = (Cell*)reserve(ASZ * MAXT / 8 * sizeof(Cell));
    g_lo = (u8*)((uintptr_t)(__data_start ? __data_start : (char*)&_end - 4096) & ~uintptr_t(4095)); g_hi = (u8*)_end;
    shadow_glob = (Cell*)reserve(((size_t)(g_hi - g_lo) / 8 + 2) * sizeof(Cell));
}
static bool in_arena(const void* p) { return (u8*)p >= arena && (u8*)p < arena + ASZ * MAXT; }
static void access(const void* p, size_t n, bool write, void* pc);

// ---- allocation -------------------------------------------------------------------------------
extern "C" void* __real_malloc(size_t); extern "C" void __real_free(void*); extern "C" void* __real_calloc(size_t, size_t); extern "C" void* __real_realloc(void*, size_t);
static void* bump(size_t n, size_t al)
{
    if (al < 16) al = 16;
    size_t& u = used[me]; size_t at = (u + 16 + al - 1) / al * al;
    if (at + n + 16 > ASZ) fatal("arena exhausted");
    u8* p = arena + ASZ * me + at; *(size_t*)(p - 8) = n; u = at + n; return p;
}
extern "C" void* __wrap_malloc(size_t n) { return me >= 0 && active ? bump(n, 16) : __real_malloc(n); }
extern "C" void __wrap_free(void* p)
{
    if (!p) return;
    if (in_arena(p)) { if (me >= 0 && active) access(p, ((size_t*)p)[-1], true, __builtin_return_address(0)); return; }
    __real_free(p);
}
extern "C" void* __wrap_calloc(size_t a, size_t b) { return me >= 0 && active ? bump(a * b, 16) : __real_calloc(a, b); } // fresh pages are zero
extern "C" void* __wrap_realloc(void* p, size_t n)
{
    if (!p) return __wrap_malloc(n);
    if (!in_arena(p)) return __real_realloc(p, n);
    size_t o = ((size_t*)p)[-1]; void* q = __wrap_malloc(n); memcpy(q, p, o < n ? o : n); __wrap_free(p); return q;
}
extern "C" void* __wrap_aligned_alloc(size_t al, size_t n) { if (me >= 0 && active) return bump(n, al); void* p = nullptr; return posix_memalign(&p, al < 8 ? 8 : al, n) ? nullptr : p; }
extern "C" int __wrap_posix_memalign(void** o, size_t al, size_t n) { *o = __wrap_aligned_alloc(al, n); return *o ? 0 : ENOMEM; }
void* operator new(size_t n) { void* p = __wrap_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return __wrap_malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return __wrap_malloc(n ? n : 1); }
void* operator new(size_t n, std::align_val_t a) { return __wrap_aligned_alloc((size_t)a, n ? n : 1); }
void* operator new[](size_t n, std::align_val_t a) { return __wrap_aligned_alloc((size_t)a, n ? n : 1); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { __wrap_free(p); }

// ---- accesses ---------------------------------------------------------------------------------
static void report_race(const u8* p, int other, bool w, bool ow, void* pc)
{
    if (R->raced) return;
    R->raced = 1;
    Dl_info d{}; dladdr(pc, &d);
    snprintf(R->race, sizeof R->race, "unsynchronised %s by thread %d of memory %s by thread %d (%s%s; code at %s+0x%lx)", w ? "write" : "read", me, ow ? "written" : "read", other,
             in_arena(p) ? "heap" : "static data", in_arena(p) && (p - arena) / (long)ASZ == 0 ? " of the shared object or its owner" : "", d.dli_sname ? d.dli_sname : "check", d.dli_saddr ? (unsigned long)((u8*)pc - (u8*)d.dli_saddr) : (unsigned long)((u8*)pc - (u8*)d.dli_fbase));
}
static inline void cell_access(Cell& c, u8 mask, bool write, const u8* p, void* pc)
{
    const VC& v = T[me].vc;
    for (int t = 0; t < MAXT; ++t)
    {
        if (t == me) continue;
        Acc& a = c.a[t];
        if (a.wm & mask && a.w > v.c[t]) report_race(p, t, write, true, pc);
        else if (write && a.rm & mask && a.r > v.c[t]) report_race(p, t, write, false, pc);
    }
    Acc& a = c.a[me]; u32 k = v.c[me];
    if (write) { if (a.w != k) { a.w = k; a.wm = 0; } a.wm |= mask; }
    else { if (a.r != k) { a.r = k; a.rm = 0; } a.rm |= mask; }
}
static void access(const void* q, size_t n, bool write, void* pc)
{
    if (me < 0 || !active || !n) return;
    u8* p = (u8*)q; Cell* base; u8* lo;
    if (p >= T[me].lo && p < T[me].hi) return;                 // own stack and thread-local storage
    if (in_arena(p)) { base = shadow_arena; lo = arena; }
    else if (p >= g_lo && p < g_hi) { base = shadow_glob; lo = g_lo; }
    else return;
    ++R->accesses;
    size_t off = p - lo, end = off + n;
    while (off < end)
    {
        size_t g = off / 8, a = off % 8, b = end - g * 8 < 8 ? end - g * 8 : 8;
        cell_access(base[g], (u8)(((1u << b) - 1) & ~((1u << a) - 1)), write, lo + off, pc);
        off = (g + 1) * 8;
    }
}
#define PC __builtin_return_address(0)
extern "C"
{
    void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t); int __real_memcmp(const void*, const void*, size_t);
    void __tsan_init() {}
    void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
    void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
#define RW(n) \
    void __tsan_read##n(void* p) { access(p, n, false, PC); } void __tsan_write##n(void* p) { access(p, n, true, PC); } \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); } \
    void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); } void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); } \
    void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false, PC); } void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true, PC); } \
    void __tsan_read##n##_pc(void* p, void* pc) { access(p, n, false, pc); } void __tsan_write##n##_pc(void* p, void* pc) { access(p, n, true, pc); } \
    void __tsan_read_write##n(void* p) { access(p, n, true, PC); access(p, n, false, PC); } void __tsan_unaligned_read_write##n(void* p) { access(p, n, true, PC); access(p, n, false, PC); }
    RW(1) RW(2) RW(4) RW(8) RW(16)
    void __tsan_read_range(void* p, unsigned long n) { access(p, n, false, PC); } void __tsan_write_range(void* p, unsigned long n) { access(p, n, true, PC); }
    void __tsan_vptr_update(void** p, void*) { access(p, 8, true, PC); } void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
    void* __tsan_memcpy(void* d, const void* s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return __real_memcpy(d, s, n); }
    void* __tsan_memmove(void* d, const void* s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return __real_memmove(d, s, n); }
    void* __tsan_memset(void* d, int c, size_t n) { access(d, n, true, PC); return __real_memset(d, c, n); }
    // libc calls made by the library's own code (--wrap): account for what they touch
    void* __wrap_memcpy(void* d, const void* s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return __real_memcpy(d, s, n); }
    void* __wrap_memmove(void* d, const void* s, size_t n) { access(s, n, false, PC); access(d, n, true, PC); return __real_memmove(d, s, n); }
    void* __wrap_memset(void* d, int c, size_t n) { access(d, n, true, PC); return __real_memset(d, c, n); }
    int __wrap_memcmp(const void* a, const void* b, size_t n) { access(a, n, false, PC); access(b, n, false, PC); return __real_memcmp(a, b, n); }
}

// ---- scheduler --------------------------------------------------------------------------------
static void fwait(int* f) { while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, f, FUTEX_WAIT, 0, nullptr, nullptr, 0); __atomic_store_n(f, 0, __ATOMIC_RELAXED); }
static void fwake(int* f) { __atomic_store_n(f, 1, __ATOMIC_RELEASE); syscall(SYS_futex, f, FUTEX_WAKE, 1, nullptr, nullptr, 0); }
static int decide(int n, bool fr) // 0 = default
{
    if (n <= 1) return 0;
    int at = R->npoints; int v = 0;
    if (idev < ndevs && devs[idev].pos == at) v = devs[idev++].alt;
    if (v >= n) fatal("schedule replay diverged");
    if (at < MAXPOINTS) R->points[at] = {(u8)n, (u8)v, (u8)fr}; else { R->overflow = 1; R->npoints = MAXPOINTS - 1; }
    ++R->npoints;
    return v;
}
static void mixt(u64 v) { R->trace_hash = (R->trace_hash ^ v) * 0x9E3779B97F4A7C15ull; R->trace_hash ^= R->trace_hash >> 29; }
// hand the processor on; `keep`: the calling thread may simply continue
static void reschedule(bool keep, bool fr)
{
    int cand[MAXT], n = 0; int self = me;
    bool demote = keep && T[self].yielded; T[self].yielded = false;
    if (keep && !demote) cand[n++] = self;
    for (int k = 1; k <= NT; ++k) { int t = (self + k - 1) % NT + 1; if (t != self && T[t].st == READY) cand[n++] = t; }
    if (keep && demote) cand[n++] = self;
    if (n == 0)
    {
        bool all = true; for (int t = 1; t <= NT; ++t) if (T[t].st != DONE) all = false;
        if (!all) { R->deadlock = 1; }
        fwake(&done_baton);
        if (!all) { int never = 0; fwait(&never); }
        return;
    }
    int nx = cand[decide(n, fr || !keep || demote)];
    if (nx == self) return;
    ++R->switches; mixt(nx + 1); T[self].spin = 0;
    cur = nx; fwake(&T[nx].baton);
    if (T[self].st != DONE) { fwait(&T[self].baton); }
}
static void sync_point(const void* addr, int what)
{
    if (me <= 0 || !active) return;
    ++R->syncops; mixt(0x100 + what + ((u64)(uintptr_t)addr << 8));
    if (++T[me].spin > 2000) { T[me].spin = 0; T[me].yielded = true; } // spinning: let another one go first
    reschedule(true, false);
}
static void block_on(const void* a) { T[me].st = BLOCKED; T[me].on = a; reschedule(false, true); }
static void wake_all(const void* a) { for (int t = 1; t <= NT; ++t) if (T[t].st == BLOCKED && T[t].on == a) { T[t].st = READY; T[t].on = nullptr; } }
void rt::call_boundary() { if (me > 0 && active) reschedule(true, true); }

// ---- synchronisation objects ------------------------------------------------------------------
struct Sync { const void* addr; VC vc; int owner, depth, readers; };
static Sync table[8192]; static int overflowed;
static Sync& sync_of(const void* a)
{
    size_t h = ((uintptr_t)a >> 2) * 2654435761u % 8192;
    for (int i = 0; i < 8192; ++i, h = (h + 1) % 8192) { if (table[h].addr == a) return table[h]; if (!table[h].addr) { table[h].addr = a; table[h].owner = -1; return table[h]; } }
    fatal("too many synchronisation objects"); return table[0];
}
static void rel(Sync& s) { join(s.vc, T[me].vc); T[me].vc.c[me]++; }
static void acq(Sync& s) { join(T[me].vc, s.vc); }
template <class F> static F next(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
static bool on() { return me >= 0 && active; }

static int lock(void* m, bool try_only)
{
    sync_point(m, 1); Sync& s = sync_of(m);
    bool recursive = (((pthread_mutex_t*)m)->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
    if (s.owner == me && recursive) { ++s.depth; return 0; }
    while (s.owner >= 0) { if (try_only) return EBUSY; if (me == 0) fatal("lock held by nobody"); block_on(m); }
    s.owner = me; s.depth = 1; acq(s); return 0;
}
static int unlock(void* m) { Sync& s = sync_of(m); if (--s.depth > 0) return 0; rel(s); s.owner = -1; wake_all(m); sync_point(m, 2); return 0; }
extern "C"
{
    int pthread_mutex_lock(pthread_mutex_t* m) { if (on()) return lock(m, false); static auto f = next<int (*)(pthread_mutex_t*)>("pthread_mutex_lock"); return f(m); }
    int pthread_mutex_trylock(pthread_mutex_t* m) { if (on()) return lock(m, true); static auto f = next<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock"); return f(m); }
    int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* t) { if (on()) return lock(m, false); static auto f = next<int (*)(pthread_mutex_t*, const timespec*)>("pthread_mutex_timedlock"); return f(m, t); }
    int pthread_mutex_unlock(pthread_mutex_t* m) { if (on()) return unlock(m); static auto f = next<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock"); return f(m); }
    int pthread_spin_lock(pthread_spinlock_t* m) { if (on()) { sync_point((void*)m, 1); Sync& s = sync_of((void*)m); while (s.owner >= 0) block_on((void*)m); s.owner = me; s.depth = 1; acq(s); return 0; } static auto f = next<int (*)(pthread_spinlock_t*)>("pthread_spin_lock"); return f(m); }
    int pthread_spin_unlock(pthread_spinlock_t* m) { if (on()) return unlock((void*)m); static auto f = next<int (*)(pthread_spinlock_t*)>("pthread_spin_unlock"); return f(m); }
    int pthread_rwlock_wrlock(pthread_rwlock_t* m)
    { if (on()) { sync_point(m, 3); Sync& s = sync_of(m); while (s.owner >= 0 || s.readers) block_on(m); s.owner = me; acq(s); return 0; } static auto f = next<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock"); return f(m); }
    int pthread_rwlock_rdlock(pthread_rwlock_t* m)
    { if (on()) { sync_point(m, 4); Sync& s = sync_of(m); while (s.owner >= 0) block_on(m); ++s.readers; acq(s); return 0; } static auto f = next<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock"); return f(m); }
    int pthread_rwlock_unlock(pthread_rwlock_t* m)
    { if (on()) { Sync& s = sync_of(m); rel(s); if (s.owner == me) s.owner = -1; else if (s.readers) --s.readers; wake_all(m); sync_point(m, 5); return 0; } static auto f = next<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock"); return f(m); }
    int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
    { if (on()) { Sync& s = sync_of(m); rel(s); s.owner = -1; s.depth = 0; wake_all(m); block_on(c); acq(sync_of(c)); return lock(m, false); } static auto f = next<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait"); return f(c, m); }
    int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t)
    { if (on()) { unlock(m); T[me].yielded = true; sync_point(c, 6); lock(m, false); return ETIMEDOUT; } static auto f = next<int (*)(pthread_cond_t*, pthread_mutex_t*, const timespec*)>("pthread_cond_timedwait"); return f(c, m, t); }
    int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t)
    { if (on()) return pthread_cond_timedwait(c, m, t); static auto f = next<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*)>("pthread_cond_clockwait"); return f(c, m, k, t); }
    int pthread_cond_signal(pthread_cond_t* c) { if (on()) { rel(sync_of(c)); wake_all(c); sync_point(c, 7); return 0; } static auto f = next<int (*)(pthread_cond_t*)>("pthread_cond_signal"); return f(c); } // waking more is a permitted spurious wakeup
    int pthread_cond_broadcast(pthread_cond_t* c) { if (on()) { rel(sync_of(c)); wake_all(c); sync_point(c, 7); return 0; } static auto f = next<int (*)(pthread_cond_t*)>("pthread_cond_broadcast"); return f(c); }
    int sched_yield() { if (on() && me > 0) { T[me].yielded = true; reschedule(true, true); return 0; } return (int)syscall(SYS_sched_yield); }
    int nanosleep(const timespec* a, timespec* b) { if (on() && me > 0) { T[me].yielded = true; reschedule(true, true); return 0; } return (int)syscall(SYS_nanosleep, a, b); }
    // initialisation of function-local statics
    int __cxa_guard_acquire(u64* g)
    {
        if (on()) { sync_point(g, 8); Sync& s = sync_of(g); while (s.owner >= 0) { if (s.owner == me) fatal("recursive static initialisation"); block_on(g); } if (*(u8*)g) { acq(s); return 0; } s.owner = me; acq(s); return 1; }
        if (*(u8*)g) return 0; ((u8*)g)[1] = 1; return 1;
    }
    void __cxa_guard_release(u64* g) { *(u8*)g = 1; if (on()) { Sync& s = sync_of(g); rel(s); s.owner = -1; wake_all(g); sync_point(g, 9); } }
    void __cxa_guard_abort(u64* g) { ((u8*)g)[1] = 0; if (on()) { Sync& s = sync_of(g); rel(s); s.owner = -1; wake_all(g); sync_point(g, 9); } }
    int pthread_once(pthread_once_t* o, void (*f)())
    {
        if (on()) { sync_point(o, 10); Sync& s = sync_of(o); while (s.owner >= 0) block_on(o); acq(s); if (*(int*)o == 0) { s.owner = me; f(); *(int*)o = 2; rel(s); s.owner = -1; wake_all(o); } return 0; }
        static auto g = next<int (*)(pthread_once_t*, void (*)())>("pthread_once"); return g(o, f);
    }
}
// std::call_once
namespace std { inline namespace __1 { void __call_once(volatile unsigned long& flag, void* arg, void (*f)(void*))
{
    if (!on()) { if (flag == 0) { f(arg); flag = ~0ul; } return; }
    void* o = (void*)&flag; sync_point(o, 11); Sync& s = sync_of(o);
    while (s.owner >= 0) block_on(o);
    acq(s); if (flag == ~0ul) return;
    s.owner = me;
    try { f(arg); } catch (...) { rel(s); s.owner = -1; wake_all(o); throw; }
    flag = ~0ul; rel(s); s.owner = -1; wake_all(o);
} } }

// ---- atomics ----------------------------------------------------------------------------------
enum { mo_relaxed, mo_consume, mo_acquire, mo_release, mo_acq_rel, mo_seq_cst };
static bool is_acq(int o) { return o == mo_consume || o == mo_acquire || o >= mo_acq_rel; }
static bool is_rel(int o) { return o >= mo_release; }
static void at_load(const void* p, int o) { if (!on()) return; Sync& s = sync_of(p); if (is_acq(o)) acq(s); else join(T[me].pend_acq, s.vc); }
static void at_store(const void* p, int o, bool rmw)
{
    if (!on()) return; Sync& s = sync_of(p);
    if (!rmw) s.vc = VC{};
    if (is_rel(o)) rel(s); else join(s.vc, T[me].fence_rel);
}
#define AT(n, ty) \
    ty __tsan_atomic##n##_load(const volatile ty* p, int o) { sync_point((void*)p, 20); ty v = *p; at_load((void*)p, o); return v; } \
    void __tsan_atomic##n##_store(volatile ty* p, ty v, int o) { sync_point((void*)p, 21); *p = v; at_store((void*)p, o, false); } \
    ty __tsan_atomic##n##_exchange(volatile ty* p, ty v, int o) { sync_point((void*)p, 22); ty r = *p; *p = v; at_load((void*)p, o); at_store((void*)p, o, true); return r; } \
    ty __tsan_atomic##n##_fetch_add(volatile ty* p, ty v, int o) { sync_point((void*)p, 22); ty r = *p; *p = (ty)(r + v); at_load((void*)p, o); at_store((void*)p, o, true); return r; } \
    ty __tsan_atomic##n##_fetch_sub(volatile ty* p, ty v, int o) { sync_point((void*)p, 22); ty r = *p; *p = (ty)(r - v); at_load((void*)p, o); at_store((void*)p, o, true); return r; } \
    ty __tsan_atomic##n##_fetch_and(volatile ty* p, ty v, int o) { sync_point((void*)p, 22); ty r = *p; *p = (ty)(r & v); at_load((void*)p, o); at_store((void*)p, o, true); return r; } \
    ty __tsan_atomic##n##_fetch_or(volatile ty* p, ty v, int o) { sync_point((void*)p, 22); ty r = *p; *p = (ty)(r | v); at_load((void*)p, o); at_store((void*)p, o, true); return r; } \
    ty __tsan_atomic##n##_fetch_xor(volatile ty* p, ty v, int o) { sync_point((void*)p, 22); ty r = *p; *p = (ty)(r ^ v); at_load((void*)p, o); at_store((void*)p, o, true); return r; } \
    ty __tsan_atomic##n##_fetch_nand(volatile ty* p, ty v, int o) { sync_point((void*)p, 22); ty r = *p; *p = (ty)~(r & v); at_load((void*)p, o); at_store((void*)p, o, true); return r; } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile ty* p, ty* e, ty v, int o, int fo) { sync_point((void*)p, 23); ty r = *p; if (r == *e) { *p = v; at_load((void*)p, o); at_store((void*)p, o, true); return 1; } *e = r; at_load((void*)p, fo); return 0; } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile ty* p, ty* e, ty v, int o, int fo) { return __tsan_atomic##n##_compare_exchange_strong(p, e, v, o, fo); } \
    ty __tsan_atomic##n##_compare_exchange_val(volatile ty* p, ty e, ty v, int o, int fo) { __tsan_atomic##n##_compare_exchange_strong(p, &e, v, o, fo); return e; }
extern "C"
{
    AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64) AT(128, i128)
    void __tsan_atomic_thread_fence(int o) { if (!on()) return; sync_point(&table, 24); if (is_acq(o)) join(T[me].vc, T[me].pend_acq); if (is_rel(o)) { T[me].fence_rel = T[me].vc; T[me].vc.c[me]++; } }
    void __tsan_atomic_signal_fence(int) {}
}

// ---- running ----------------------------------------------------------------------------------
static void* tmain(void* a)
{
    int t = (int)(intptr_t)a;
    fwait(&T[t].baton);
    me = t;
    prog(prog_arg, t);
    T[t].vc.c[t]++; T[t].st = DONE;
    int was = me; reschedule(false, true); (void)was;
    me = -1;
    return nullptr;
}
void rt::set_report(Report* r, const Dev* d, int n) { R = r; devs = d; ndevs = n; idev = 0; }
void rt::begin_main()
{
    pthread_attr_t at; pthread_getattr_np(pthread_self(), &at); void* s; size_t n; pthread_attr_getstack(&at, &s, &n);
    T[0].lo = (u8*)s; T[0].hi = (u8*)s + n; T[0].vc.c[0] = 1; T[0].st = DONE; me = 0; active = true;
}
void rt::run(int n, void (*body)(void*, int), void* arg)
{
    NT = n; prog = body; prog_arg = arg; me = -1;
    for (int t = 1; t <= n; ++t)
    {
        size_t sz = 8 << 20; u8* s = (u8*)reserve(sz); T[t].lo = s; T[t].hi = s + sz; T[t].vc = T[0].vc; T[t].vc.c[t] = 1; T[t].st = READY;
        pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, s, sz); if (pthread_create(&T[t].h, &a, tmain, (void*)(intptr_t)t)) fatal("pthread_create");
    }
    T[0].vc.c[0]++;
    int first = 1 + decide(n, true); cur = first; mixt(first + 1); fwake(&T[first].baton);
    fwait(&done_baton);
    R->finished = !R->deadlock;
    active = false;
}
