// Deterministic simulation runtime.
//
// One OS process per simulated run (forked from a warmed-up parent, so that all static state of the
// libraries is identical at the start of every run).  All threads of the program under simulation are
// real pthreads, but exactly one runs at a time; a seeded scheduler decides at every scheduling point
// (instrumented memory access, synchronisation call, time call, I/O call) who runs next.  Clocks, random
// sources, thread creation, mutexes, conditions, once-flags, sleeping, file I/O and allocation are
// interposed.  A run is a pure function of (binary, seed) or of (binary, replay file).
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include <pthread.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <malloc.h>
#include <math.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <poll.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <execinfo.h>
#include <link.h>
#include <algorithm>
#include <atomic>
#include <exception>
#include <map>
#include <new>
#include <set>
#include <typeinfo>
#include <cxxabi.h>
#include <unordered_map>
#include <unordered_set>
#include <iostream>

typedef uint64_t u64; typedef int64_t i64;

// ------------------------------------------------------------------------------------------------
// PRNG
struct Rng
{
    u64 s[4];
    static u64 sm(u64& x) { u64 z = (x += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
    void seed(u64 a, u64 b) { u64 x = a * 0x2545F4914F6CDD1DULL + b; for (int i = 0; i < 4; i++) s[i] = sm(x); }
    static u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
    u64 next() { u64 r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45); return r; }
    u64 below(u64 n) { return n ? next() % n : 0; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};
static u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; return h; }
static u64 hstr(const char* s) { u64 h = 1469598103934665603ULL; while (*s) { h ^= (unsigned char) * s++; h *= 1099511628211ULL; } return h; }

// ------------------------------------------------------------------------------------------------
// result slot shared with the parent
enum Status { ST_NONE = 0, ST_OK = 1, ST_VIOL = 2, ST_DISCARD = 3 };
struct Dec { uint16_t tid; uint16_t target; uint32_t kind; u64 lstep; };      // at (tid,lstep) switch to target
struct Flt { u64 site; u64 n; i64 val; };                                       // n-th opportunity at site -> val
static const int NDEC = 1 << 20, NFLT = 1 << 15, NPROBE = 96, LOGSZ = 1 << 16;
struct Named { char name[56]; u64 n; };
struct Slot
{
    int status;
    u64 seed;
    u64 schedHash, stateHash;
    u64 steps, switches, vtime;
    int threads;
    int nontrivial;
    char cls[96];
    char msg[4096];
    char sample[1024];
    Named probes[NPROBE]; Named faults[NPROBE];
    int logLen; char log[LOGSZ];
    int nflt; int ndec; int decOverflow;
    Flt flt[NFLT];
    Dec dec[NDEC];
};
static Slot* S = nullptr;           // slot of this run

// ------------------------------------------------------------------------------------------------
// real functions
#define REAL(name) real_##name()
#define DEFREAL(ret, name, args) typedef ret (*rt_##name) args; static rt_##name real_##name() { static rt_##name p = nullptr; if (!p) p = (rt_##name)dlsym(RTLD_NEXT, #name); return p; }
DEFREAL(int, pthread_create, (pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))
DEFREAL(int, pthread_join, (pthread_t, void**))
DEFREAL(int, pthread_detach, (pthread_t))
DEFREAL(int, pthread_mutex_lock, (pthread_mutex_t*))
DEFREAL(int, pthread_mutex_trylock, (pthread_mutex_t*))
DEFREAL(int, pthread_mutex_unlock, (pthread_mutex_t*))
DEFREAL(int, pthread_mutex_destroy, (pthread_mutex_t*))
DEFREAL(int, pthread_mutex_timedlock, (pthread_mutex_t*, const timespec*))
DEFREAL(int, pthread_cond_init, (pthread_cond_t*, const pthread_condattr_t*))
DEFREAL(int, pthread_cond_destroy, (pthread_cond_t*))
DEFREAL(int, pthread_cond_wait, (pthread_cond_t*, pthread_mutex_t*))
DEFREAL(int, pthread_cond_timedwait, (pthread_cond_t*, pthread_mutex_t*, const timespec*))
DEFREAL(int, pthread_cond_clockwait, (pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*))
DEFREAL(int, pthread_cond_signal, (pthread_cond_t*))
DEFREAL(int, pthread_cond_broadcast, (pthread_cond_t*))
DEFREAL(int, pthread_once, (pthread_once_t*, void (*)(void)))
DEFREAL(int, pthread_rwlock_rdlock, (pthread_rwlock_t*))
DEFREAL(int, pthread_rwlock_wrlock, (pthread_rwlock_t*))
DEFREAL(int, pthread_rwlock_tryrdlock, (pthread_rwlock_t*))
DEFREAL(int, pthread_rwlock_trywrlock, (pthread_rwlock_t*))
DEFREAL(int, pthread_rwlock_unlock, (pthread_rwlock_t*))
DEFREAL(int, sched_yield, (void))
DEFREAL(int, nanosleep, (const timespec*, timespec*))
DEFREAL(int, clock_nanosleep, (clockid_t, int, const timespec*, timespec*))
DEFREAL(int, usleep, (useconds_t))
DEFREAL(unsigned, sleep, (unsigned))
DEFREAL(int, clock_gettime, (clockid_t, timespec*))
DEFREAL(int, gettimeofday, (timeval*, void*))
DEFREAL(time_t, time, (time_t*))
DEFREAL(clock_t, clock, (void))
DEFREAL(int, rand, (void))
DEFREAL(void, srand, (unsigned))
DEFREAL(ssize_t, read, (int, void*, size_t))
DEFREAL(ssize_t, write, (int, const void*, size_t))
DEFREAL(ssize_t, writev, (int, const iovec*, int))
DEFREAL(int, close, (int))
DEFREAL(FILE*, fopen, (const char*, const char*))
DEFREAL(FILE*, fopen64, (const char*, const char*))
DEFREAL(int, fclose, (FILE*))
DEFREAL(int, open, (const char*, int, ...))
DEFREAL(int, open64, (const char*, int, ...))

// ------------------------------------------------------------------------------------------------
// state of a run
enum TState { T_FREE = 0, T_RUN, T_BLOCK, T_SLEEP, T_DONE };
static const int MAXT = 120;
struct Thr
{
    int id; TState st; pthread_t real; std::atomic<int> go; u64 lstep; u64 prio; u64 stallUntil;
    void* waitObj; bool timed; u64 wake; bool timedOut; bool detached; bool joined;
    void* (*fn)(void*); void* arg; char name[24]; unsigned seen;
    size_t decPos;   // replay cursor
    int noPre; void* ret; char* alt;
};
static Thr T[MAXT];
static int nT = 0;
static __thread Thr* me __attribute__((tls_model("initial-exec"))) = nullptr;
static bool g_active = false;
static i64 g_cd = INT64_MAX, g_cdStart = INT64_MAX;  // countdown to the next slow path
static u64 g_steps = 0;                               // accounted steps of all threads
static int g_noPre0 = 0;
#define g_noPre (*(me ? &me->noPre : &g_noPre0))
static bool g_conf = false;                           // conflict-directed mode
// The runtime's own containers live outside the program's heap, so that recording, replaying and
// searching all leave the program with the same heap layout.
static char* g_arena = nullptr; static size_t g_arenaUsed = 0; static void* g_arenaFree[64];
static void* arenaGet(size_t n)
{
    if (!g_arena) g_arena = (char*)mmap((void*)0x600000000000ULL, 4ULL << 30, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    int c = 4; while ((1ULL << c) < n) c++;
    if (g_arenaFree[c]) { void* p = g_arenaFree[c]; g_arenaFree[c] = *(void**)p; return p; }
    void* p = g_arena + g_arenaUsed; g_arenaUsed += 1ULL << c;
    return p;
}
static void arenaPut(void* p, size_t n) { int c = 4; while ((1ULL << c) < n) c++; *(void**)p = g_arenaFree[c]; g_arenaFree[c] = p; }
template <class T> struct SA
{
    typedef T value_type; SA() {} template <class U> SA(const SA<U>&) {}
    T* allocate(size_t n) { return (T*)arenaGet(n * sizeof(T)); }
    void deallocate(T* p, size_t n) { arenaPut(p, n * sizeof(T)); }
    template <class U> bool operator==(const SA<U>&) const { return true; }
    template <class U> bool operator!=(const SA<U>&) const { return false; }
};
template <class T> using AVec = std::vector<T, SA<T>>;
template <class K, class V> using AUMap = std::unordered_map<K, V, std::hash<K>, std::equal_to<K>, SA<std::pair<const K, V>>>;
template <class K, class V> using AMap = std::map<K, V, std::less<K>, SA<std::pair<const K, V>>>;
template <class T> static T* arenaNew() { return new (arenaGet(sizeof(T))) T(); }

static Rng R_sched, R_fault, R_work, R_env, R_time;
static u64 g_seed;
static sim::Opts g_opts;
static u64 g_limit = UINT64_MAX; static char g_limitWhat[160];
static double g_tick = 5; static u64 g_extraNs = 0; static i64 g_rtOff = 0;
static bool g_replay = false;
static AVec<Dec>* g_decs[MAXT];
typedef std::pair<u64, u64> FKey;
static AMap<FKey, i64>* g_flts = nullptr;
static AUMap<u64, u64>* g_fltCount = nullptr;
static int g_policy = 0; static double g_meanGap = 100; static double g_pConf = 0; static double g_pSync = 0.3;
static double g_pStall = 0; static u64 g_fair = 200000; static u64 g_runStart = 0;
static AVec<u64>* g_pctPts = nullptr;
static pthread_key_t g_key; static bool g_keyOk = false;
static int g_lineage = 0;   // 0 in the main process of the run, 1 in a forked phase
static bool g_inRt = false; static double g_gapLeft = 0;

static void slow(bool wantSwitch);
static void schedule(bool forced, int kind);

static inline void futexWait(std::atomic<int>* a, int v) { syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, v, nullptr, nullptr, 0); }
static inline void futexWake(std::atomic<int>* a) { syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
static void waitGo(Thr* t) { while (t->go.load() == 0) futexWait(&t->go, 0); t->go.store(0); }

static void bump(Named* tab, const char* name, u64 n)
{
    if (!S) return;
    for (int i = 0; i < NPROBE; i++)
    {
        if (!tab[i].name[0]) { strncpy(tab[i].name, name, sizeof tab[i].name - 1); tab[i].n = n; return; }
        if (!strncmp(tab[i].name, name, sizeof tab[i].name - 1)) { tab[i].n += n; return; }
    }
}
static void sev(u64 v) { if (S) S->schedHash = mix(S->schedHash, v); }

[[noreturn]] static void endRun(int status)
{
    if (S)
    {
        if (me && g_cd < g_cdStart) { g_steps += g_cdStart - g_cd; }
        S->status = status; S->steps = g_steps; S->threads = nT;
        S->vtime = (u64)(g_steps * g_tick) + g_extraNs;
    }
    _exit(status == ST_OK ? 0 : status == ST_VIOL ? 88 : 89);
}
static void vfmt(char* buf, size_t n, const char* fmt, va_list ap) { vsnprintf(buf, n, fmt, ap); }

// --- next countdown ------------------------------------------------------------------------------
static void account()
{
    i64 d = g_cdStart - g_cd;
    if (me) me->lstep += d;
    g_steps += d;
    g_cdStart = g_cd;
}
static bool isForced(unsigned kind);
// next recorded voluntary decision of the calling thread at or after its local step l
static const Dec* nextVol(u64 l)
{
    AVec<Dec>& v = *g_decs[me->id];
    while (me->decPos < v.size() && v[me->decPos].lstep < me->lstep) me->decPos++;
    for (size_t i = me->decPos; i < v.size(); i++) if (!isForced(v[i].kind) && v[i].lstep >= l) return &v[i];
    return nullptr;
}
static void arm()
{
    i64 n;
    if (g_replay)
    {
        const Dec* d = nextVol(me->lstep + 1);
        n = d ? (i64)(d->lstep - me->lstep) : INT64_MAX / 4;
        n = std::min<i64>(n, 2000);     // (fairness is looked at this often)
    }
    else if (!g_opts.allowPreempt) n = 2000;
    else if (g_policy == 1)
    {
        n = 2000;
        for (u64 p : *g_pctPts) if (p > g_steps) n = std::min<i64>(n, (i64)(p - g_steps));
    }
    else
    {
        double x = -log(1 - R_sched.unit()) * g_meanGap;
        n = 1 + (i64)std::min(x, 2000.0);
        if (n > 2000) { n = 2000; g_gapLeft = x - 2000; } else g_gapLeft = 0;
    }
    if (g_limit != UINT64_MAX) n = std::max<i64>(1, std::min<i64>(n, (i64)(g_limit + 1 - std::min(g_steps, g_limit))));
    g_cdStart = g_cd = n;
}
static u64 vnow() { u64 st = g_steps + (g_cdStart - g_cd); return 1000000000ULL + (u64)(st * g_tick) + g_extraNs; }

static bool runnable(Thr& t) { return t.st == T_RUN; }
static void wakeSleepers()
{
    u64 n = vnow();
    for (int i = 0; i < nT; i++)
        if ((T[i].st == T_SLEEP || (T[i].st == T_BLOCK && T[i].timed)) && T[i].wake <= n)
        {
            if (T[i].st == T_BLOCK) { T[i].timedOut = true; T[i].waitObj = nullptr; }
            T[i].st = T_RUN; T[i].timed = false;
        }
}
static void describeBlocked(char* b, size_t n)
{
    size_t o = 0; b[0] = 0;
    for (int i = 0; i < nT && o + 60 < n; i++)
        if (T[i].st != T_DONE) o += snprintf(b + o, n - o, " T%d(%s):%s", i, T[i].name, T[i].st == T_BLOCK ? "blocked" : T[i].st == T_SLEEP ? "sleeping" : "running");
}
static void record(int target, int kind)
{
    if (!S) return;
    if (S->ndec < NDEC) { Dec& d = S->dec[S->ndec++]; d.tid = me->id; d.target = target; d.kind = kind; d.lstep = me->lstep; }
    else S->decOverflow = 1;
}
static void switchTo(Thr* t)
{
    if (t == me) { arm(); return; }
    Thr* self = me;
    if (S) S->switches++;
    sev((u64)self->id << 32 | t->id); sev(self->lstep);
    bool done = self->st == T_DONE;
    g_runStart = g_steps;
    t->go.store(1); futexWake(&t->go);
    if (done) return;
    waitGo(self);
    arm();
}

static void checkLimit()
{
    if (g_steps <= g_limit) return;
    u64 l = g_limit; g_limit = UINT64_MAX;
    char b[1024]; describeBlocked(b, sizeof b);
    if (S) { strncpy(S->cls, "no-progress", sizeof S->cls - 1); snprintf(S->msg, sizeof S->msg, "%s: not finished at scheduling point %llu;%s", g_limitWhat, (unsigned long long)l, b); }
    endRun(ST_VIOL);
}
// chooses who runs next.  forced: the calling thread cannot go on.
enum { K_PRE = 0, K_SYNC = 1, K_BLOCK = 2, K_YIELD = 3, K_EXIT = 4 };
static bool isForced(unsigned k) { return k == K_BLOCK || k == K_EXIT; }
static void schedule(bool forced, int kind)
{
    account();
    checkLimit();
    wakeSleepers();
    int c[MAXT], n = 0, nall = 0;
    for (;;)
    {
        n = nall = 0;
        for (int i = 0; i < nT; i++)
            if (runnable(T[i]) && !(forced && &T[i] == me)) { nall++; if (T[i].stallUntil <= g_steps || &T[i] == me) c[n++] = i; }
        if (n == 0 && nall > 0) for (int i = 0; i < nT; i++) if (runnable(T[i]) && !(forced && &T[i] == me)) c[n++] = i;
        if (n) break;
        // nobody can run: let time pass
        u64 w = UINT64_MAX;
        for (int i = 0; i < nT; i++) if (T[i].st == T_SLEEP || (T[i].st == T_BLOCK && T[i].timed)) w = std::min(w, T[i].wake);
        if (w == UINT64_MAX)
        {
            char b[2048]; describeBlocked(b, sizeof b);
            if (S) { strncpy(S->cls, "deadlock", sizeof S->cls - 1); snprintf(S->msg, sizeof S->msg, "deadlock: no thread can run;%s", b); }
            endRun(ST_VIOL);
        }
        u64 nw = vnow(); if (w > nw) g_extraNs += w - nw + 1;
        wakeSleepers();
        if (forced && me->st == T_RUN) { arm(); return; }   // the caller itself was woken up
    }
    int pick = -1;
    if (g_replay)
    {
        AVec<Dec>& v = *g_decs[me->id];
        while (me->decPos < v.size() && v[me->decPos].lstep < me->lstep) me->decPos++;
        for (size_t i = me->decPos; i < v.size() && v[i].lstep == me->lstep; i++)
        {
            if (v[i].target == 0xffff || isForced(v[i].kind) != forced) continue;
            int t = v[i].target; v[i].target = 0xffff;      // used up
            if (t < nT && runnable(T[t]) && !(forced && t == me->id)) pick = t;
            break;
        }
        if (pick < 0)
        {
            if (!forced && kind != K_YIELD && g_steps - g_runStart < g_fair * 20) pick = me->id;
            else { pick = c[0]; for (int i = 0; i < n; i++) if (c[i] > me->id) { pick = c[i]; break; } }   // round robin
        }
        if (pick != me->id) record(pick, kind);
        switchTo(&T[pick]);
        return;
    }
    bool stay = !forced;
    if (!forced && kind == K_YIELD && n > 1) { int k = 0; for (int i = 0; i < n; i++) if (c[i] != me->id) c[k++] = c[i]; n = k; stay = false; }
    if (g_noPre && stay) pick = me->id;
    else if (!forced && !g_opts.allowPreempt && kind != K_YIELD) pick = me->id;
    else if (g_policy == 1)
    {
        // PCT: highest priority first; change points, yields and unfair runs lower the priority
        if (kind == K_YIELD) me->prio = R_sched.below(1000);
        else if (!forced)
        {
            bool cp = g_steps - g_runStart > g_fair;
            for (u64& p : *g_pctPts) if (p <= g_steps && p) { p = 0; cp = true; }
            if (cp) me->prio = R_sched.below(1000);
        }
        for (int i = 0; i < n; i++) if (pick < 0 || T[c[i]].prio > T[pick].prio) pick = c[i];
    }
    else
    {
        pick = c[R_sched.below(n)];
    }
    if (g_pStall > 0 && !g_noPre && n > 1 && R_sched.unit() < g_pStall)
    {
        int v = c[R_sched.below(n)];
        T[v].stallUntil = g_steps + (1ULL << (6 + R_sched.below(12)));
        bump(S->faults, "thread-stall", 1);
        if (pick == v) for (int i = 0; i < n; i++) if (c[i] != v) pick = c[i];
    }
    if (pick != me->id || (kind == K_YIELD && nall > 1)) record(pick, kind);
    switchTo(&T[pick]);
}
static void __attribute__((noinline)) slow(bool)
{
    if (!g_active || !me) { g_cd = g_cdStart = INT64_MAX; return; }
    account();
    checkLimit();
    if (g_replay)
    {
        const Dec* d = nextVol(me->lstep);
        bool hit = d && d->lstep == me->lstep && d->target != 0xffff;
        if (!hit && g_steps - g_runStart < g_fair * 20) { arm(); return; }
        schedule(false, K_PRE);
        return;
    }
    if (g_noPre || !g_opts.allowPreempt) { if (g_noPre || g_steps - g_runStart <= g_fair) { arm(); return; } }
    if (g_steps - g_runStart > g_fair) { if (g_policy == 0) schedule(false, K_YIELD); else schedule(false, K_PRE); return; }
    if (g_policy == 0 && g_gapLeft > 0)
    {
        i64 n = 1 + (i64)std::min(g_gapLeft, 1999.0); g_gapLeft -= 2000;
        if (g_limit != UINT64_MAX) n = std::max<i64>(1, std::min<i64>(n, (i64)(g_limit + 1 - std::min(g_steps, g_limit))));
        g_cdStart = g_cd = n;
        return;
    }
    schedule(false, K_PRE);
}
static int liveCount() { int n = 0; for (int i = 0; i < nT; i++) if (T[i].st != T_DONE) n++; return n; }

// scheduling point at synchronisation / system calls: counts exactly one step
static void syncPoint(int kind = K_SYNC)
{
    if (!g_active || !me) return;
    if (--g_cd == 0 && kind != K_YIELD) { slow(false); return; }
    if (kind == K_YIELD) { account(); schedule(false, K_YIELD); return; }
    if (g_replay || g_noPre || !g_opts.allowPreempt) return;
    if (g_policy == 0 && R_sched.unit() < g_pSync) schedule(false, K_SYNC);
}

static void blockOn(void* obj, bool timed = false, u64 wake = 0)
{
    me->st = T_BLOCK; me->waitObj = obj; me->timed = timed; me->wake = wake; me->timedOut = false;
    schedule(true, K_BLOCK);
    me->timed = false; me->waitObj = nullptr;
}
static void wakeAll(void* obj) { wakeSleepers(); for (int i = 0; i < nT; i++) if (T[i].st == T_BLOCK && T[i].waitObj == obj) { T[i].st = T_RUN; T[i].waitObj = nullptr; T[i].timed = false; } }
static bool wakeOne(void* obj) { wakeSleepers(); for (int i = 0; i < nT; i++) if (T[i].st == T_BLOCK && T[i].waitObj == obj) { T[i].st = T_RUN; T[i].waitObj = nullptr; T[i].timed = false; return true; } return false; }
static inline bool simOn() { return g_active && me; }

// ------------------------------------------------------------------------------------------------
// conflict-directed preemption
struct CE { uintptr_t a; uint8_t tid; uint8_t w; uint8_t shared; };
static CE* g_ce = nullptr; static const int CEB = 15;
static bool g_confSoon = false;
static __attribute__((noinline)) void conflict(uintptr_t a, bool w)
{
    if (!me || g_noPre || g_replay || !g_opts.allowPreempt) return;
    a &= ~(uintptr_t)3;
    if (g_confSoon) { g_confSoon = false; bump(S->probes, "sim.conflict-switch", 1); schedule(false, K_PRE); return; }
    // stack accesses of the own thread are not shared
    uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
    if (a - sp + 4096 < 262144) return;
    CE& e = g_ce[((a * 0x9E3779B97F4A7C15ULL) >> 20) & ((1 << CEB) - 1)];
    if (e.a == a)
    {
        if (e.tid != me->id && (w || e.w)) e.shared = 1;
        if (e.shared)
        {
            double u = R_sched.unit();
            if (u < g_pConf) { bump(S->probes, "sim.conflict-switch", 1); schedule(false, K_PRE); }
            else if (u < 2 * g_pConf) g_confSoon = true;
        }
        e.tid = me->id; e.w = w;
    }
    else { e.a = a; e.tid = me->id; e.w = w; e.shared = 0; }
}
#define HOT(a, w) do { if (__builtin_expect(--g_cd == 0, 0)) slow(false); else if (__builtin_expect(g_conf, 0)) conflict((uintptr_t)(a), w); } while (0)
extern "C" {
    void __tsan_init() {}
    void __tsan_func_entry(void*) { if (__builtin_expect(--g_cd == 0, 0)) slow(false); }
    void __tsan_func_exit() {}
    void __tsan_ignore_thread_begin() {}
    void __tsan_ignore_thread_end() {}
#define RW(n) \
    void __tsan_read##n(void* a) { HOT(a, false); } \
    void __tsan_write##n(void* a) { HOT(a, true); } \
    void __tsan_unaligned_read##n(void* a) { HOT(a, false); } \
    void __tsan_unaligned_write##n(void* a) { HOT(a, true); } \
    void __tsan_read##n##_pc(void* a, void*) { HOT(a, false); } \
    void __tsan_write##n##_pc(void* a, void*) { HOT(a, true); } \
    void __tsan_read_write##n(void* a) { HOT(a, true); } \
    void __tsan_unaligned_read_write##n(void* a) { HOT(a, true); } \
    void __tsan_volatile_read##n(void* a) { HOT(a, false); } \
    void __tsan_volatile_write##n(void* a) { HOT(a, true); } \
    void __tsan_unaligned_volatile_read##n(void* a) { HOT(a, false); } \
    void __tsan_unaligned_volatile_write##n(void* a) { HOT(a, true); }
    RW(1) RW(2) RW(4) RW(8) RW(16)
    void __tsan_read_range(void* a, unsigned long) { HOT(a, false); }
    void __tsan_write_range(void* a, unsigned long) { HOT(a, true); }
    void __tsan_vptr_update(void** a, void*) { HOT(a, true); }
    void __tsan_vptr_read(void** a) { HOT(a, false); }
    void* __tsan_memcpy(void* d, const void* s, unsigned long n) { HOT(d, true); return memcpy(d, s, n); }
    void* __tsan_memmove(void* d, const void* s, unsigned long n) { HOT(d, true); return memmove(d, s, n); }
    void* __tsan_memset(void* d, int c, unsigned long n) { HOT(d, true); return memset(d, c, n); }
#define AT(n, ty) \
    ty __tsan_atomic##n##_load(const volatile ty* a, int) { syncPoint(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##n##_store(volatile ty* a, ty v, int) { syncPoint(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##n##_exchange(volatile ty* a, ty v, int) { syncPoint(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##n##_fetch_add(volatile ty* a, ty v, int) { HOT(a, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##n##_fetch_sub(volatile ty* a, ty v, int) { HOT(a, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##n##_fetch_and(volatile ty* a, ty v, int) { syncPoint(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##n##_fetch_or(volatile ty* a, ty v, int) { syncPoint(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##n##_fetch_xor(volatile ty* a, ty v, int) { syncPoint(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile ty* a, ty* c, ty v, int, int) { syncPoint(); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile ty* a, ty* c, ty v, int, int) { syncPoint(); return __atomic_compare_exchange_n(a, c, v, true, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    ty __tsan_atomic##n##_compare_exchange_val(volatile ty* a, ty c, ty v, int, int) { syncPoint(); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
    AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
    void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
    void __tsan_atomic_signal_fence(int) {}
}

// ------------------------------------------------------------------------------------------------
// synchronisation objects
struct MRec { int owner = -1; int count = 0; };
struct RWRec { int writer = -1; int readers = 0; };
static AUMap<void*, MRec>* g_mx; static AUMap<void*, RWRec>* g_rw;
static AUMap<void*, int>* g_condClock;
static int mkind(pthread_mutex_t* m) { return m->__data.__kind & 3; }

static void mlock(pthread_mutex_t* m)
{
    for (;;)
    {
        MRec& r = (*g_mx)[m];
        if (r.count == 0) { r.owner = me->id; r.count = 1; return; }
        if (r.owner == me->id && mkind(m) == PTHREAD_MUTEX_RECURSIVE) { r.count++; return; }
        blockOn(m);
    }
}
static int munlock(pthread_mutex_t* m)
{
    auto it = g_mx->find(m);
    if (it == g_mx->end() || it->second.count == 0) { bump(S->probes, "sim.unlock-of-unlocked-mutex", 1); return EPERM; }
    if (it->second.owner != me->id) { bump(S->probes, "sim.unlock-by-other-thread", 1); if (mkind(m)) return EPERM; }
    if (--it->second.count == 0) { g_mx->erase(it); wakeAll(m); }
    return 0;
}
extern "C" {
    int pthread_mutex_lock(pthread_mutex_t* m) noexcept
    {
        if (!simOn()) return REAL(pthread_mutex_lock)(m);
        syncPoint();
        auto it = g_mx->find(m);
        if (it != g_mx->end() && it->second.owner == me->id && mkind(m) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
        mlock(m);
        sev(0x10000 + me->id);
        return 0;
    }
    int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
    {
        if (!simOn()) return REAL(pthread_mutex_trylock)(m);
        syncPoint();
        MRec& r = (*g_mx)[m];
        if (r.count == 0) { r.owner = me->id; r.count = 1; return 0; }
        if (r.owner == me->id && mkind(m) == PTHREAD_MUTEX_RECURSIVE) { r.count++; return 0; }
        return EBUSY;
    }
    int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts) noexcept
    {
        if (!simOn()) return REAL(pthread_mutex_timedlock)(m, ts);
        for (int i = 0; i < 1000; i++) { int r = pthread_mutex_trylock(m); if (r == 0) return 0; schedule(false, K_YIELD); }
        return ETIMEDOUT;
    }
    int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
    {
        if (!simOn()) return REAL(pthread_mutex_unlock)(m);
        int r = munlock(m);
        syncPoint();
        return r;
    }
    int pthread_mutex_destroy(pthread_mutex_t* m) noexcept
    {
        if (simOn()) { auto it = g_mx->find(m); if (it != g_mx->end()) { bump(S->probes, "sim.destroy-of-locked-mutex", 1); g_mx->erase(it); } return 0; }
        return REAL(pthread_mutex_destroy)(m);
    }
    int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept
    {
        if (!simOn()) return REAL(pthread_rwlock_rdlock)(m);
        syncPoint();
        while ((*g_rw)[m].writer >= 0) blockOn(m);
        (*g_rw)[m].readers++; return 0;
    }
    int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept
    {
        if (!simOn()) return REAL(pthread_rwlock_wrlock)(m);
        syncPoint();
        while ((*g_rw)[m].writer >= 0 || (*g_rw)[m].readers > 0) blockOn(m);
        (*g_rw)[m].writer = me->id; return 0;
    }
    int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept
    {
        if (!simOn()) return REAL(pthread_rwlock_tryrdlock)(m);
        syncPoint(); if ((*g_rw)[m].writer >= 0) return EBUSY; (*g_rw)[m].readers++; return 0;
    }
    int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept
    {
        if (!simOn()) return REAL(pthread_rwlock_trywrlock)(m);
        syncPoint(); RWRec& r = (*g_rw)[m]; if (r.writer >= 0 || r.readers) return EBUSY; r.writer = me->id; return 0;
    }
    int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept
    {
        if (!simOn()) return REAL(pthread_rwlock_unlock)(m);
        RWRec& r = (*g_rw)[m];
        if (r.writer >= 0) r.writer = -1; else if (r.readers > 0) r.readers--;
        if (r.writer < 0 && !r.readers) g_rw->erase(m);
        wakeAll(m); syncPoint(); return 0;
    }
    int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) noexcept
    {
        clockid_t k = CLOCK_REALTIME; if (a) pthread_condattr_getclock(a, &k);
        if (simOn()) { if (k != CLOCK_REALTIME) (*g_condClock)[c] = k; else g_condClock->erase(c); }
        return REAL(pthread_cond_init)(c, a);
    }
    int pthread_cond_destroy(pthread_cond_t* c) noexcept
    {
        if (simOn()) { g_condClock->erase(c); return 0; }
        return REAL(pthread_cond_destroy)(c);
    }
    static u64 rtNow();
    static int condWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, u64 wake)
    {
        MRec saved = (*g_mx)[m];
        g_mx->erase(m); wakeAll(m);
        bool to = false;
        if (sim::fault::decide("spurious-wakeup", g_opts.spuriousP)) schedule(false, K_YIELD);
        else { blockOn(c, timed, wake); to = me->timedOut; }
        mlock(m);
        (*g_mx)[m].count = std::max(1, saved.count);
        return to ? ETIMEDOUT : 0;
    }
    int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
    {
        if (!simOn()) return REAL(pthread_cond_wait)(c, m);
        return condWait(c, m, false, 0);
    }
    int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* ts)
    {
        if (!simOn()) return REAL(pthread_cond_clockwait)(c, m, k, ts);
        u64 dl = ts->tv_sec * 1000000000ULL + ts->tv_nsec, n = k == CLOCK_REALTIME ? rtNow() : vnow();
        return condWait(c, m, true, vnow() + (dl > n ? dl - n : 0));
    }
    int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts)
    {
        if (!simOn()) return REAL(pthread_cond_timedwait)(c, m, ts);
        auto it = g_condClock->find(c);
        return pthread_cond_clockwait(c, m, it == g_condClock->end() ? CLOCK_REALTIME : it->second, ts);
    }
    int pthread_cond_signal(pthread_cond_t* c) noexcept
    {
        if (!simOn()) return REAL(pthread_cond_signal)(c);
        wakeOne(c); syncPoint(); return 0;
    }
    int pthread_cond_broadcast(pthread_cond_t* c) noexcept
    {
        if (!simOn()) return REAL(pthread_cond_broadcast)(c);
        wakeAll(c); syncPoint(); return 0;
    }
    // once-initialisation
    static AUMap<void*, int>* g_once;   // 1 running
    int pthread_once(pthread_once_t* o, void (*f)(void))
    {
        if (!simOn()) return REAL(pthread_once)(o, f);
        syncPoint();
        for (;;)
        {
            if (*(volatile int*)o == 2) return 0;
            int& st = (*g_once)[o];
            if (st == 0) break;
            blockOn(o);
        }
        (*g_once)[o] = 1;
        try { f(); } catch (...) { g_once->erase(o); wakeAll(o); throw; }
        *(volatile int*)o = 2;   // glibc: __PTHREAD_ONCE_DONE
        g_once->erase(o); wakeAll(o);
        return 0;
    }
}
namespace __cxxabiv1 { extern "C" {
    int __cxa_guard_acquire(__guard* g)
    {
        char* b = (char*)g;
        if (simOn()) syncPoint();
        for (;;)
        {
            if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) return 0;
            if (b[1] == 0) { b[1] = 1; return 1; }
            if (simOn()) blockOn(g); else sched_yield();
        }
    }
    void __cxa_guard_release(__guard* g) { char* b = (char*)g; b[1] = 0; __atomic_store_n(b, 1, __ATOMIC_RELEASE); if (simOn()) { wakeAll(g); syncPoint(); } }
    void __cxa_guard_abort(__guard* g) { char* b = (char*)g; b[1] = 0; if (simOn()) wakeAll(g); }
} }
extern "C" {
    int sched_yield() noexcept { if (!simOn()) return REAL(sched_yield)(); syncPoint(K_YIELD); return 0; }
}
static void simSleep(u64 ns)
{
    me->st = T_SLEEP; me->wake = vnow() + ns; me->timed = false;
    schedule(true, K_BLOCK);
}
extern "C" {
    int nanosleep(const timespec* a, timespec* b) { if (!simOn()) return REAL(nanosleep)(a, b); simSleep(a->tv_sec * 1000000000ULL + a->tv_nsec); return 0; }
    int clock_nanosleep(clockid_t k, int fl, const timespec* a, timespec* b)
    {
        if (!simOn()) return REAL(clock_nanosleep)(k, fl, a, b);
        u64 t = a->tv_sec * 1000000000ULL + a->tv_nsec;
        if (fl & TIMER_ABSTIME) { u64 n = k == CLOCK_REALTIME ? rtNow() : vnow(); t = t > n ? t - n : 0; }
        simSleep(t); return 0;
    }
    int usleep(useconds_t u) { if (!simOn()) return REAL(usleep)(u); simSleep(u * 1000ULL); return 0; }
    unsigned sleep(unsigned s) { if (!simOn()) return REAL(sleep)(s); simSleep(s * 1000000000ULL); return 0; }
}

// ------------------------------------------------------------------------------------------------
// threads
static void finishThread(Thr* t)
{
    t->st = T_DONE;
    for (int i = 0; i < nT; i++) if (T[i].st == T_BLOCK && T[i].waitObj == (void*)t) { T[i].st = T_RUN; T[i].waitObj = nullptr; }
    sev(0x30000 + t->id);
    schedule(true, K_EXIT);     // hands over and returns
    for (;;) pause();           // OS threads never exit: their tear-down would not be under control of the scheduler
}
static void keyDtor(void* p)
{
    Thr* t = (Thr*)p;
    if (!g_active || t != me) return;
    if (++t->seen < PTHREAD_DESTRUCTOR_ITERATIONS) { pthread_setspecific(g_key, t); return; }
    finishThread(t);
}
static char g_alt[MAXT][32768];
static void* wrapper(void* p)
{
    Thr* t = (Thr*)p;
    me = t;
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_size = sizeof g_alt[0]; ss.ss_sp = g_alt[t->id]; sigaltstack(&ss, nullptr);
    waitGo(t);
    arm();
    pthread_setspecific(g_key, t);
    t->ret = t->fn(t->arg);
    return t->ret;
}
static Thr* newThr(void* (*fn)(void*), void* arg)
{
    if (nT >= MAXT) { sim::discard("too many threads"); }
    Thr* t = &T[nT]; t->id = nT; t->st = T_RUN; t->go.store(0); t->lstep = 0; t->stallUntil = 0; t->waitObj = nullptr; t->timed = false;
    t->detached = t->joined = false; t->fn = fn; t->arg = arg; t->seen = 0; t->decPos = 0; t->name[0] = 0; t->noPre = 0; t->ret = nullptr;
    t->prio = 1000 + R_sched.below(1000000);
    nT++;
    return t;
}
static Thr* findThr(pthread_t p) { for (int i = nT - 1; i >= 0; i--) if (T[i].real == p && !T[i].joined) return &T[i]; return nullptr; }
extern "C" {
    int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*fn)(void*), void* arg) noexcept
    {
        if (!simOn()) return REAL(pthread_create)(th, at, fn, arg);
        if (sim::fault::decide("thread-create-EAGAIN", g_opts.createFailP)) { syncPoint(); return EAGAIN; }
        Thr* t = newThr(fn, arg);
        pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 2 << 20);
        int r = REAL(pthread_create)(th, &a, wrapper, t);
        if (r) { nT--; return r; }
        t->real = *th;
        sev(0x20000 + t->id);
        syncPoint();
        return 0;
    }
    int pthread_join(pthread_t th, void** ret)
    {
        if (!simOn()) return REAL(pthread_join)(th, ret);
        syncPoint();
        Thr* t = findThr(th);
        if (!t) return ESRCH;
        if (t == me) return EDEADLK;
        while (t->st != T_DONE) blockOn(t);
        if (t->joined) return EINVAL;
        t->joined = true;
        if (ret) *ret = t->ret;
        syncPoint();
        return 0;
    }
    int pthread_timedjoin_np(pthread_t th, void** ret, const timespec*) { return pthread_join(th, ret); }
    int pthread_detach(pthread_t th) noexcept
    {
        if (!simOn()) return REAL(pthread_detach)(th);
        Thr* t = findThr(th); if (t) t->detached = true; return 0;    // stays joinable for the OS: ids are never reused
    }
}

// ------------------------------------------------------------------------------------------------
// time
static void advance() { if (simOn()) { g_extraNs += 20 + R_time.below(60); } }
static u64 rtNow()
{
    if (g_opts.clockJumps && sim::fault::decide("clock-jump", g_opts.clockJumpP))
    {
        int e = R_time.below(7);
        i64 d = (i64)(pow(10, 5 + e) * (0.5 + R_time.unit()));      // 0.1 ms .. 100 s
        g_rtOff += (R_time.next() & 1) ? d : -d;
    }
    return 1700000000ULL * 1000000000ULL + vnow() + g_rtOff;
}
extern "C" {
    int clock_gettime(clockid_t k, timespec* ts) noexcept
    {
        if (!simOn()) return REAL(clock_gettime)(k, ts);
        advance();
        u64 t = (k == CLOCK_REALTIME || k == CLOCK_REALTIME_COARSE) ? rtNow() : vnow();
        ts->tv_sec = t / 1000000000ULL; ts->tv_nsec = t % 1000000000ULL;
        syncPoint();
        return 0;
    }
    int gettimeofday(timeval* tv, void*) noexcept
    {
        if (!simOn()) return REAL(gettimeofday)(tv, nullptr);
        advance(); u64 t = rtNow(); tv->tv_sec = t / 1000000000ULL; tv->tv_usec = t % 1000000000ULL / 1000; syncPoint(); return 0;
    }
    time_t time(time_t* p) noexcept
    {
        if (!simOn()) return REAL(time)(p);
        advance(); time_t t = rtNow() / 1000000000ULL; if (p) *p = t; return t;
    }
    clock_t clock() noexcept
    {
        if (!simOn()) return REAL(clock)();
        advance(); clock_t c = vnow() / 1000; syncPoint(); return c;      // CLOCKS_PER_SEC == 1e6
    }
    int rand() noexcept { if (!simOn()) return REAL(rand)(); return (int)(R_env.next() & 0x7fffffff); }
    void srand(unsigned s) noexcept { if (!simOn()) { REAL(srand)(s); return; } /* time based seeding must not matter */ }
    long random() noexcept { return rand(); }
    double drand48() noexcept { return R_env.unit(); }
    ssize_t getrandom(void* b, size_t n, unsigned) { for (size_t i = 0; i < n; i++) ((char*)b)[i] = R_env.next(); return n; }
}
// std::random_device::_M_getval() (libstdc++): the only entropy source of the library's generators
extern "C" unsigned int _ZNSt13random_device9_M_getvalEv(void*) { return (unsigned)(R_env.next() >> 16); }

// ------------------------------------------------------------------------------------------------
// public interface
namespace sim
{
    Opts& opts() { return g_opts; }
    uint64_t rnd() { return R_work.next(); }
    uint64_t rnd(uint64_t n) { return R_work.below(n); }
    int rint(int lo, int hi) { return lo + (int)R_work.below((u64)(hi - lo + 1)); }
    double runit() { return R_work.unit(); }
    double rreal(double lo, double hi) { return lo + (hi - lo) * R_work.unit(); }
    bool chance(double p) { return R_work.unit() < p; }
    uint64_t seed() { return g_seed; }
    void violation(const char* cls, const char* fmt, ...)
    {
        g_noPre++;
        va_list ap; va_start(ap, fmt);
        if (S) { strncpy(S->cls, cls, sizeof S->cls - 1); vfmt(S->msg, sizeof S->msg, fmt, ap); }
        va_end(ap);
        endRun(ST_VIOL);
    }
    void discard(const char* why) { if (S) snprintf(S->msg, sizeof S->msg, "%s", why); char b[60]; snprintf(b, sizeof b, "discard.%s", why); probe(b); endRun(ST_DISCARD); }
    void event(uint64_t v) { if (S) S->stateHash = mix(S->stateHash, v); }
    void event(const char* tag, uint64_t v) { event(hstr(tag)); event(v); }
    void eventf(double v) { u64 x; if (v == 0) v = 0; memcpy(&x, &v, 8); event(x); }
    void probe(const char* n, uint64_t k) { if (S) bump(S->probes, n, k); }
    void nontrivial() { if (S) S->nontrivial = 1; }
    void sample(const char* fmt, ...) { if (!S) return; va_list ap; va_start(ap, fmt); vfmt(S->sample, sizeof S->sample, fmt, ap); va_end(ap); }
    void log(const char* fmt, ...)
    {
        if (!S) return;
        char b[600]; va_list ap; va_start(ap, fmt); vfmt(b, sizeof b, fmt, ap); va_end(ap);
        int n = snprintf(S->log + S->logLen, LOGSZ - S->logLen, "[T%d @%llu] %s\n", me ? me->id : -1, (unsigned long long)steps(), b);
        if (S->logLen + n < LOGSZ) S->logLen += n; else S->logLen = LOGSZ - 1;
    }
    static void* fnTramp(void* p) { std::function<void()>* f = (std::function<void()>*)p; (*f)(); delete f; return nullptr; }
    int spawn(std::function<void()> f, const char* name)
    {
        pthread_t th; double cf = g_opts.createFailP; g_opts.createFailP = 0;
        int id = nT; g_noPre++;
        pthread_create(&th, nullptr, fnTramp, new std::function<void()>(f));
        g_noPre--;
        g_opts.createFailP = cf;
        strncpy(T[id].name, name, sizeof T[id].name - 1);
        syncPoint();
        return id;
    }
    void join(int id) { if (!T[id].joined) pthread_join(T[id].real, nullptr); }
    void joinAll() { for (int i = 1; i < nT; i++) if (!T[i].joined && !T[i].detached && i != me->id) pthread_join(T[i].real, nullptr); }
    void yield() { syncPoint(K_YIELD); }
    int self() { return me ? me->id : -1; }
    uint64_t steps() { return g_steps + (me ? (g_cdStart - g_cd) : 0); }
    NoPreempt::NoPreempt() { g_noPre++; }
    NoPreempt::~NoPreempt() { g_noPre--; }
    Preempt::Preempt() { saved = g_noPre; g_noPre = 0; }
    Preempt::~Preempt() { g_noPre = saved; }
    void setStepLimit(uint64_t s, const char* what) { strncpy(g_limitWhat, what, sizeof g_limitWhat - 1); g_limit = steps() + s; if (me) { account(); arm(); } }
    void clearStepLimit() { g_limit = UINT64_MAX; }
    uint64_t now() { return vnow(); }
    void sleepNs(uint64_t n) { simSleep(n); }
    bool waitFor(const std::function<bool()>& pred, uint64_t maxSteps)
    {
        u64 end = steps() + maxSteps;
        for (;;)
        {
            { NoPreempt np; if (pred()) return true; }
            if (steps() > end) return false;
            simSleep(1000 + R_time.below(20000));
        }
    }
    int liveThreads() { return liveCount(); }
    namespace fault
    {
        void note(const char* k, uint64_t n) { if (S) bump(S->faults, k, n); }
        // returns 0 (no fault) or a positive fault value (drawn from [1,range]); the draw depends only on (seed, site, ordinal)
        static i64 decideVal(const char* site, double p, u64 range)
        {
            if (p <= 0 || !S) return 0;
            u64 h = hstr(site); u64 n = (*g_fltCount)[h]++;
            Rng q; q.seed(g_seed ^ h, n + 1000);
            i64 r = 0;
            double u = q.unit(); i64 val = 1 + (i64)q.below(range);
            if (g_replay) { auto it = g_flts->find(std::make_pair(h, n)); if (it != g_flts->end()) r = it->second; }
            else if (u < p) r = val;
            if (r)
            {
                bump(S->faults, site, 1); sev(h); sev(n);
                if (S->nflt < NFLT) { Flt& f = S->flt[S->nflt++]; f.site = h; f.n = n; f.val = r; } else S->decOverflow = 1;
            }
            return r;
        }
        bool decide(const char* site, double p) { return decideVal(site, p, 1) != 0; }
    }
}

// ------------------------------------------------------------------------------------------------
// allocation failures
struct MemPlan { long nth = -1, count = 0, min = 0; bool withMalloc = false, fired = false; };
static MemPlan m_any; static thread_local MemPlan m_own;
static inline bool memArmed() { return m_own.nth >= 0 || m_any.nth >= 0; }
static bool memFail(size_t n, bool mt)
{
    if (!me || g_inRt || g_noPre) return false;
    for (MemPlan* m : {&m_own, &m_any})
        if (m->nth >= 0 && (long)n >= m->min && (!mt || m->withMalloc) && m->count++ == m->nth) { m->fired = true; bump(S->faults, "alloc-failure", 1); sev(0x40000); sev(m->count); return true; }
    return false;
}
namespace sim { namespace mem {
    static void arm(MemPlan& m, long nth, bool mt, long mn) { m.nth = nth; m.count = 0; m.withMalloc = mt; m.fired = false; m.min = mn; }
    void failAny(long nth, bool mt, long mn) { m_own.fired = false; arm(m_any, nth, mt, mn); }
    void failNew(long nth, bool mt, long mn) { if (m_any.nth < 0) m_any.fired = false; arm(m_own, nth, mt, mn); }
    void off() { m_own.nth = m_any.nth = -1; }
    long count() { return m_any.nth >= 0 ? m_any.count : m_own.count; }
    bool fired() { return m_own.fired || m_any.fired; }
} }
static size_t g_maxAlloc = (size_t)4 << 30;
void* operator new(size_t n)
{
    if (__builtin_expect(memArmed(), 0) && memFail(n, false)) throw std::bad_alloc();
    if (n > g_maxAlloc) throw std::bad_alloc();
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { if (memArmed() && memFail(n, false)) return nullptr; if (n > g_maxAlloc) return nullptr; return malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
// C code of the repository compiled with -Dmalloc=sim_malloc
extern "C" void* sim_malloc(size_t n) { if (memArmed() && memFail(n, true)) return nullptr; return malloc(n); }
extern "C" void* sim_calloc(size_t a, size_t b) { if (memArmed() && memFail(a * b, true)) return nullptr; return calloc(a, b); }
extern "C" void* sim_realloc(void* p, size_t n) { if (memArmed() && memFail(n, true)) return nullptr; return realloc(p, n); }

// ------------------------------------------------------------------------------------------------
// file I/O
static sim::io::Plan g_plan; static sim::io::Stats g_io; static std::string* g_scratch;
static bool g_fd[1024];
namespace sim { namespace io {
    const std::string& scratch() { return *g_scratch; }
    Plan& plan() { return g_plan; }
    Stats& stats() { return g_io; }
    void resetStats() { g_io = Stats(); }
} }
static bool inScratch(const char* p) { return g_scratch && !g_scratch->empty() && !strncmp(p, g_scratch->c_str(), g_scratch->size()); }
static void ionote(const char* k) { bump(S->faults, k, 1); sev(hstr(k)); g_io.faults++; }
static ssize_t faultyRead(int fd, void* b, size_t n, ssize_t (*rd)(int, void*, size_t))
{
    syncPoint();
    if (g_plan.eioReadAt >= 0 && g_io.read + (long)n > g_plan.eioReadAt)
    {
        if (g_io.read >= g_plan.eioReadAt) { ionote("read-EIO"); g_io.readFaults++; errno = EIO; return -1; }
        n = g_plan.eioReadAt - g_io.read;
    }
    if (n && sim::fault::decide("read-EINTR", g_plan.eintrP)) { g_io.faults++; errno = EINTR; return -1; }
    if (n > 1 && g_plan.shortReadP > 0) { i64 v = sim::fault::decideVal("short-read", g_plan.shortReadP, n - 1); if (v) { g_io.faults++; n = std::min<size_t>(n, v); } }
    ssize_t r = rd(fd, b, n);
    if (r > 0) g_io.read += r;
    return r;
}
static ssize_t faultyWrite(int fd, const void* b, size_t n)
{
    syncPoint();
    if (n && sim::fault::decide("write-EINTR", g_plan.eintrP)) { g_io.faults++; errno = EINTR; return -1; }
    if (g_plan.crashWriteAt >= 0 && g_io.written + (long)n > g_plan.crashWriteAt)
    {
        size_t k = std::max<long>(0, g_plan.crashWriteAt - g_io.written);
        if (k) { ssize_t r = REAL(write)(fd, b, k); (void)r; }
        ionote("crash-during-write");
        if (g_lineage) _exit(77);
    }
    if (g_plan.eioWriteAt >= 0 && g_io.written + (long)n > g_plan.eioWriteAt)
    {
        if (g_io.written >= g_plan.eioWriteAt) { ionote("write-EIO"); g_io.writeFaults++; if (g_plan.eioOnce) g_plan.eioWriteAt = -1; errno = EIO; return -1; }
        n = g_plan.eioWriteAt - g_io.written;
    }
    if (g_plan.capacity >= 0 && g_io.written + (long)n > g_plan.capacity)
    {
        if (g_io.written >= g_plan.capacity) { ionote("write-ENOSPC"); g_io.writeFaults++; errno = ENOSPC; return -1; }
        n = g_plan.capacity - g_io.written;
    }
    if (n > 1 && g_plan.shortWriteP > 0) { i64 v = sim::fault::decideVal("short-write", g_plan.shortWriteP, n - 1); if (v) { g_io.faults++; n = std::min<size_t>(n, v); } }
    ssize_t r = REAL(write)(fd, b, n);
    if (r > 0) g_io.written += r;
    return r;
}
// FILE* opened by code of the executable (not by libstdc++): goes through a cookie, so that reads of
// stdio buffers pass the fault layer
struct Cookie { int fd; };
static ssize_t ckRead(void* c, char* b, size_t n) { return faultyRead(((Cookie*)c)->fd, b, n, REAL(read)); }
static ssize_t ckWrite(void* c, const char* b, size_t n)
{
    size_t o = 0; int e = 0;
    while (o < n) { ssize_t r = faultyWrite(((Cookie*)c)->fd, b + o, n - o); if (r < 0) { if (errno == EINTR) continue; e = 1; break; } o += r; }
    return e && o == 0 ? 0 : o;
}
static int ckSeek(void* c, off64_t* o, int w) { off64_t r = lseek64(((Cookie*)c)->fd, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ckClose(void* c) { Cookie* k = (Cookie*)c; int r = REAL(close)(k->fd); delete k; g_io.closes++; if (g_plan.failClose) { ionote("close-EIO"); g_io.writeFaults++; errno = EIO; return -1; } return r; }
static uintptr_t g_exeLo = 0, g_exeHi = 0;
static FILE* doFopen(const char* p, const char* m, void* ra, FILE * (*f)(const char*, const char*))
{
    if (!simOn() || !inScratch(p)) return f(p, m);
    syncPoint();
    if (g_plan.failOpen) { ionote("open-failure"); errno = m[0] == 'r' ? ENFILE : EACCES; return nullptr; }
    bool exe = (uintptr_t)ra >= g_exeLo && (uintptr_t)ra < g_exeHi;
    if (!exe) { FILE* r = f(p, m); if (r) { g_io.opens++; int fd = fileno(r); if (fd >= 0 && fd < 1024) g_fd[fd] = true; } return r; }
    FILE* r = f(p, m);
    if (!r) return r;
    g_io.opens++;
    int fd = dup(fileno(r)); REAL(fclose)(r);
    cookie_io_functions_t io = { ckRead, ckWrite, ckSeek, ckClose };
    return fopencookie(new Cookie{fd}, m, io);
}
extern "C" {
    FILE* fopen(const char* p, const char* m) { return doFopen(p, m, __builtin_return_address(0), REAL(fopen)); }
    FILE* fopen64(const char* p, const char* m) { return doFopen(p, m, __builtin_return_address(0), REAL(fopen64)); }
    int fclose(FILE* f)
    {
        if (!simOn()) return REAL(fclose)(f);
        int fd = fileno(f); bool s = fd >= 0 && fd < 1024 && g_fd[fd];
        int r = REAL(fclose)(f);
        if (s) { g_fd[fd] = false; g_io.closes++; if (g_plan.failClose) { ionote("close-EIO"); g_io.writeFaults++; errno = EIO; return EOF; } }
        return r;
    }
    static int doOpen(const char* p, int fl, mode_t m, int (*f)(const char*, int, ...))
    {
        if (!simOn() || !inScratch(p)) return f(p, fl, m);
        syncPoint();
        if (g_plan.failOpen) { ionote("open-failure"); errno = EACCES; return -1; }
        int fd = f(p, fl, m); if (fd >= 0) g_io.opens++; if (fd >= 0 && fd < 1024) g_fd[fd] = true; return fd;
    }
    int open(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, mode_t); va_end(ap); return doOpen(p, fl, m, REAL(open)); }
    int open64(const char* p, int fl, ...) { va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, mode_t); va_end(ap); return doOpen(p, fl, m, REAL(open64)); }
    int close(int fd)
    {
        if (simOn() && fd >= 0 && fd < 1024 && g_fd[fd]) { g_fd[fd] = false; g_io.closes++; int r = REAL(close)(fd); if (g_plan.failClose) { ionote("close-EIO"); g_io.writeFaults++; errno = EIO; return -1; } return r; }
        return REAL(close)(fd);
    }
    ssize_t read(int fd, void* b, size_t n)
    {
        if (simOn() && fd >= 0 && fd < 1024 && g_fd[fd]) return faultyRead(fd, b, n, REAL(read));
        return REAL(read)(fd, b, n);
    }
    ssize_t write(int fd, const void* b, size_t n)
    {
        if (simOn() && fd >= 0 && fd < 1024 && g_fd[fd]) return faultyWrite(fd, b, n);
        return REAL(write)(fd, b, n);
    }
    ssize_t writev(int fd, const iovec* v, int c)
    {
        if (simOn() && fd >= 0 && fd < 1024 && g_fd[fd])
        {
            ssize_t tot = 0;
            for (int i = 0; i < c; i++)
            {
                ssize_t r = faultyWrite(fd, v[i].iov_base, v[i].iov_len);
                if (r < 0) return tot ? tot : -1;
                tot += r;
                if ((size_t)r < v[i].iov_len) return tot;
            }
            return tot;
        }
        return REAL(writev)(fd, v, c);
    }
}

// ------------------------------------------------------------------------------------------------
// run / replay / search
struct Replay
{
    u64 seed = 0; bool byDecisions = false; std::string cls, msg; u64 schedHash = 0, stateHash = 0;
    std::vector<Dec> dec; std::vector<Flt> flt;
};
static void onSignal(int sg, siginfo_t*, void*)
{
    if (S && S->status == ST_NONE)
    {
        snprintf(S->cls, sizeof S->cls, "crash-%s", sg == SIGSEGV ? "SIGSEGV" : sg == SIGABRT ? "SIGABRT" : sg == SIGFPE ? "SIGFPE" : sg == SIGBUS ? "SIGBUS" : "SIGILL");
        void* bt[24]; int n = backtrace(bt, 24);
        size_t o = snprintf(S->msg, sizeof S->msg, "the process crashed with signal %d; stack:", sg);
        for (int i = 2; i < n && o + 300 < sizeof S->msg; i++)
        {
            Dl_info di; const char* nm = "?";
            if (dladdr(bt[i], &di) && di.dli_sname) nm = di.dli_sname;
            o += snprintf(S->msg + o, sizeof S->msg - o, " %.120s", nm);
        }
        S->status = ST_VIOL;
    }
    _exit(88);
}
// no library function may end the process of its caller
extern "C" __attribute__((noreturn)) void exit(int c)
{
    if (S && S->status == ST_NONE && me)
    {
        g_noPre++; void* bt[24]; int n = backtrace(bt, 24); snprintf(S->cls, sizeof S->cls, "process-exit");
        size_t o = snprintf(S->msg, sizeof S->msg, "the process is ended by exit(%d); stack:", c);
        for (int i = 1; i < n && o + 300 < sizeof S->msg; i++) { Dl_info di; const char* nm = "?"; if (dladdr(bt[i], &di) && di.dli_sname) nm = di.dli_sname; o += snprintf(S->msg + o, sizeof S->msg - o, " %.120s", nm); }
        S->status = ST_VIOL;
        _exit(88);
    }
    _exit(c);
}
static int* g_showErr;
static void onTerminate()
{
    const char* nm = "?"; char what[400] = "";
    if (g_showErr && *g_showErr) { g_noPre++; void* b[60]; int n = backtrace(b, 60); backtrace_symbols_fd(b, n, 2); g_noPre--; }
    if (std::type_info* ti = abi::__cxa_current_exception_type()) nm = ti->name();
    try { if (std::current_exception()) std::rethrow_exception(std::current_exception()); }
    catch (std::exception& e) { snprintf(what, sizeof what, "%s", e.what()); }
    catch (...) {}
    if (S && S->status == ST_NONE)
    {
        g_noPre++;
        snprintf(S->cls, sizeof S->cls, "uncaught-exception");
        snprintf(S->msg, sizeof S->msg, "std::terminate was called in thread T%d: uncaught %s %s", me ? me->id : -1, nm, what);
        S->status = ST_VIOL;
    }
    _exit(88);
}
static void* mainSim(void*)
{
    try { sim::harness.run(); }
    catch (std::exception& e)
    {
        char b[700]; snprintf(b, sizeof b, "%s", e.what());
        sim::violation("unexpected-exception", "exception left the simulated run: %s: %s", typeid(e).name(), b);
    }
    g_noPre++;
    endRun(ST_OK);
}
static void swarm()
{
    // per-run scheduling configuration
    R_sched.seed(g_seed, 1); R_fault.seed(g_seed, 2); R_work.seed(g_seed, 3); R_env.seed(g_seed, 4); R_time.seed(g_seed, 5);
    double lg = g_opts.minGapLog2 + R_sched.unit() * (g_opts.maxGapLog2 - g_opts.minGapLog2);
    g_meanGap = pow(2, lg);
    g_policy = R_sched.unit() < 0.2 ? 1 : 0;
    g_pSync = R_sched.unit() < 0.3 ? 0.9 : R_sched.unit() * 0.5;
    g_pStall = R_sched.unit() < 0.15 ? 0.02 : 0;
    g_pConf = 0;
    if (R_sched.unit() < 0.5) g_pConf = pow(2, -(double)(1 + R_sched.below(8)));
    if (R_sched.unit() < 0.06) { g_policy = 0; g_meanGap = 1e12; g_pConf = 0; g_pSync = 0.02; }     // (almost) sequential
    g_pctPts = arenaNew<AVec<u64>>();
    int d = 1 + R_sched.below(6);
    for (int i = 0; i < d; i++) g_pctPts->push_back((u64)pow(2, 4 + R_sched.unit() * 16));
    double a = log(g_opts.tickNsLo), b = log(g_opts.tickNsHi);
    g_tick = exp(a + (b - a) * R_time.unit());
    g_fair = 50000 + R_sched.below(300000);
}
struct ShReplay { u64 byDecisions, ndec, nflt; Dec dec[NDEC]; Flt flt[NFLT]; };   // shared with the zygote

static void childMain(Slot* slot, u64 seed, const ShReplay* rp, const char* scratch)
{
    S = slot;
    g_seed = seed;
    swarm();
    g_replay = rp && rp->byDecisions;
    g_mx = arenaNew<AUMap<void*, MRec>>(); g_rw = arenaNew<AUMap<void*, RWRec>>();
    g_condClock = arenaNew<AUMap<void*, int>>(); g_once = arenaNew<AUMap<void*, int>>();
    g_fltCount = arenaNew<AUMap<u64, u64>>();
    *g_scratch = scratch;
    if (g_replay)
    {
        for (int i = 0; i < MAXT; i++) g_decs[i] = arenaNew<AVec<Dec>>();
        for (u64 i = 0; i < rp->ndec; i++) if (rp->dec[i].tid < MAXT) g_decs[rp->dec[i].tid]->push_back(rp->dec[i]);
        g_flts = arenaNew<AMap<FKey, i64>>();
        for (u64 i = 0; i < rp->nflt; i++) (*g_flts)[FKey(rp->flt[i].site, rp->flt[i].n)] = rp->flt[i].val;
    }
    g_conf = g_pConf > 0 && !g_replay;
    if (g_conf) g_ce = (CE*)arenaGet(sizeof(CE) << CEB);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onSignal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) sigaction(s, &sa, nullptr);
    std::set_terminate(onTerminate);
    struct rlimit rl = {(rlim_t)6 << 30, (rlim_t)6 << 30}; setrlimit(RLIMIT_AS, &rl);
    int dn = REAL(open)("/dev/null", O_WRONLY); if (dn >= 0) { dup2(dn, 1); if (!*g_showErr) dup2(dn, 2); }
    mallopt(M_PERTURB, 0x5A);
    pthread_key_create(&g_key, keyDtor);
    Thr* t = newThr(mainSim, nullptr); strcpy(t->name, "main");
    t->go.store(1);
    g_active = true;
    pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 8 << 20);
    // the new thread is the only one which runs from here on
    REAL(pthread_create)(&t->real, &a, wrapper, t);
    for (;;) pause();
}
static std::string g_tmp; static int g_cpus[256], g_ncpu = 0;
static void rmrf(const std::string& d)
{
    if (d.find("/simscratch.") == std::string::npos) return;
    std::string c = "rm -rf '" + d + "'"; int r = system(c.c_str()); (void)r;
}
static void clearDir(const std::string& d);
#include <dirent.h>
static void clearDir(const std::string& d)
{
    if (d.find("/simscratch.") == std::string::npos) return;
    DIR* dir = opendir(d.c_str()); if (!dir) return;
    while (dirent* e = readdir(dir)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = d + "/" + n; if (unlink(p.c_str())) { clearDir(p); rmdir(p.c_str()); } }
    closedir(dir);
}
static const int NSLOT = 20;
struct Cmd { int slot, idx, replay; };
struct Shared { volatile pid_t pid[NSLOT]; volatile int done[NSLOT]; volatile int st[NSLOT]; ShReplay rp; char dirs[64][512]; int showErr; };
static Slot* g_slots[NSLOT]; static Shared* g_sh; static int g_cmdPipe[2]; static int g_nslot = 0;
static Slot* newSlot() { return g_slots[g_nslot++ % NSLOT]; }
static int slotIdx(Slot* s) { for (int i = 0; i < NSLOT; i++) if (g_slots[i] == s) return i; abort(); }
static void resetSlot(Slot* s) { memset(s, 0, offsetof(Slot, log)); s->nflt = s->ndec = s->decOverflow = 0; }
static void onChld(int) {}
// The zygote: the warmed-up process every run is forked from.  It allocates nothing between runs, so
// every run starts from the identical memory image.
static int zygote(pid_t coord)
{
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onChld; sigaction(SIGCHLD, &sa, nullptr);
    sigset_t block, empty; sigemptyset(&empty); sigemptyset(&block); sigaddset(&block, SIGCHLD); sigprocmask(SIG_BLOCK, &block, nullptr);
    int rc = 2;
    for (;;)
    {
        int st; pid_t r;
        while ((r = waitpid(-1, &st, WNOHANG)) > 0)
        {
            if (r == coord) { rc = WIFEXITED(st) ? WEXITSTATUS(st) : 2; return rc; }
            for (int i = 0; i < NSLOT; i++) if (g_sh->pid[i] == r) { g_sh->st[i] = st; __sync_synchronize(); g_sh->done[i] = 1; break; }
        }
        struct pollfd pf = {g_cmdPipe[0], POLLIN, 0};
        timespec ts = {0, 200000000};
        if (ppoll(&pf, 1, &ts, &empty) <= 0) continue;
        Cmd c; if (REAL(read)(g_cmdPipe[0], &c, sizeof c) != sizeof c) { usleep(1000); continue; }
        pid_t p = fork();
        if (p == 0)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            sa.sa_handler = SIG_DFL; sigaction(SIGCHLD, &sa, nullptr); sigprocmask(SIG_UNBLOCK, &block, nullptr);
            if (g_ncpu) { cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(g_cpus[c.idx % g_ncpu], &cs); sched_setaffinity(0, sizeof cs, &cs); }
            if (chdir(g_sh->dirs[c.idx])) _exit(90);
            g_showErr = &g_sh->showErr;
            char dir[520]; snprintf(dir, sizeof dir, "%s/", g_sh->dirs[c.idx]);
            childMain(g_slots[c.slot], g_slots[c.slot]->seed, c.replay ? &g_sh->rp : nullptr, dir);
            _exit(91);
        }
        g_sh->pid[c.slot] = p;
    }
}
static void launch(Slot* s, u64 seed, const Replay* rp, int idx)
{
    resetSlot(s); s->seed = seed;
    mkdir(g_sh->dirs[idx], 0700); clearDir(g_sh->dirs[idx]);
    if (rp)
    {
        g_sh->rp.byDecisions = rp->byDecisions; g_sh->rp.ndec = std::min<size_t>(rp->dec.size(), NDEC); g_sh->rp.nflt = std::min<size_t>(rp->flt.size(), NFLT);
        std::copy(rp->dec.begin(), rp->dec.begin() + g_sh->rp.ndec, g_sh->rp.dec); std::copy(rp->flt.begin(), rp->flt.begin() + g_sh->rp.nflt, g_sh->rp.flt);
    }
    Cmd c = {slotIdx(s), idx, rp != nullptr};
    g_sh->done[c.slot] = 0; g_sh->pid[c.slot] = 0; __sync_synchronize();
    if (REAL(write)(g_cmdPipe[1], &c, sizeof c) != sizeof c) _exit(2);
}
static bool finished(Slot* s, int& st) { int i = slotIdx(s); if (!g_sh->done[i]) return false; __sync_synchronize(); st = g_sh->st[i]; return true; }
static void killRun(Slot* s) { int i = slotIdx(s); while (!g_sh->pid[i] && !g_sh->done[i]) usleep(100); if (!g_sh->done[i]) kill(g_sh->pid[i], SIGKILL); while (!g_sh->done[i]) usleep(100); }
static u64 wallMs() { timespec t; REAL(clock_gettime)(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000ULL + t.tv_nsec / 1000000; }
// runs one, returns true when it ended by itself
static int g_wallLimit = 120000;
static bool runOne(Slot* s, u64 seed, const Replay* rp, int idx)
{
    launch(s, seed, rp, idx);
    u64 t0 = wallMs(); int st;
    for (int k = 0;; k++)
    {
        if (finished(s, st)) break;
        if ((i64)(wallMs() - t0) > g_wallLimit) { killRun(s); s->status = ST_NONE; return false; }
        timespec ts = {0, k < 50 ? 100000 : 1000000}; REAL(nanosleep)(&ts, nullptr);
    }
    if (s->status == ST_NONE && WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL) { s->status = ST_VIOL; snprintf(s->cls, sizeof s->cls, "crash-signal"); snprintf(s->msg, sizeof s->msg, "killed by signal %d", WTERMSIG(st)); }
    return true;
}
static void toReplay(const Slot* s, Replay& r)
{
    r.seed = s->seed; r.cls = s->cls; r.msg = s->msg; r.schedHash = s->schedHash; r.stateHash = s->stateHash;
    r.dec.assign(s->dec, s->dec + s->ndec); r.flt.assign(s->flt, s->flt + s->nflt);
}
static void writeReplay(const std::string& path, const Replay& r, const Slot* s)
{
    FILE* f = REAL(fopen)(path.c_str(), "w");
    if (!f) return;
    fprintf(f, "property %s\nseed %llu\nmode %s\nclass %s\nschedhash %llu\nstatehash %llu\n", sim::harness.property, (unsigned long long)r.seed, r.byDecisions ? "decisions" : "seed", r.cls.c_str(), (unsigned long long)r.schedHash, (unsigned long long)r.stateHash);
    std::string m = r.msg; for (char& c : m) if (c == '\n') c = ' ';
    fprintf(f, "message %s\n", m.c_str());
    fprintf(f, "faults %zu\n", r.flt.size());
    for (const Flt& x : r.flt) fprintf(f, "f %llu %llu %lld\n", (unsigned long long)x.site, (unsigned long long)x.n, (long long)x.val);
    fprintf(f, "decisions %zu   # (thread, local step, next thread, kind)\n", r.byDecisions ? r.dec.size() : (size_t)0);
    if (r.byDecisions) for (const Dec& d : r.dec) fprintf(f, "d %u %llu %u %u\n", d.tid, (unsigned long long)d.lstep, d.target, d.kind);
    fprintf(f, "# faults injected:");
    for (int i = 0; i < NPROBE && s->faults[i].name[0]; i++) fprintf(f, " %s=%llu", s->faults[i].name, (unsigned long long)s->faults[i].n);
    fprintf(f, "\n# workload: %s\n# history:\n", s->sample);
    std::string lg(s->log, s->logLen); size_t p = 0;
    while (p < lg.size()) { size_t e = lg.find('\n', p); if (e == std::string::npos) e = lg.size(); fprintf(f, "#   %s\n", lg.substr(p, e - p).c_str()); p = e + 1; }
    REAL(fclose)(f);
}
static bool readReplay(const char* path, Replay& r)
{
    FILE* f = REAL(fopen)(path, "r"); if (!f) return false;
    char line[8192];
    while (fgets(line, sizeof line, f))
    {
        unsigned long long a, b; unsigned u, v, w; long long c; char buf[200];
        if (sscanf(line, "seed %llu", &a) == 1) r.seed = a;
        else if (sscanf(line, "mode %100s", buf) == 1) r.byDecisions = !strcmp(buf, "decisions");
        else if (sscanf(line, "class %190s", buf) == 1) r.cls = buf;
        else if (sscanf(line, "schedhash %llu", &a) == 1) r.schedHash = a;
        else if (sscanf(line, "statehash %llu", &a) == 1) r.stateHash = a;
        else if (!strncmp(line, "message ", 8)) { r.msg = line + 8; while (!r.msg.empty() && r.msg.back() == '\n') r.msg.pop_back(); }
        else if (sscanf(line, "f %llu %llu %lld", &a, &b, &c) == 3) r.flt.push_back(Flt{a, b, c});
        else if (sscanf(line, "d %u %llu %u %u", &u, &a, &v, &w) == 4) r.dec.push_back(Dec{(uint16_t)u, (uint16_t)v, w, a});
    }
    REAL(fclose)(f);
    return true;
}
static std::string jesc(const char* s)
{
    std::string o = "\"";
    for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
    return o + "\"";
}
static int dlcb(dl_phdr_info* i, size_t, void*)
{
    if (i->dlpi_name && *i->dlpi_name) return 0;
    for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) { g_exeLo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; g_exeHi = g_exeLo + i->dlpi_phdr[k].p_memsz; }
    return 1;
}
static std::string classStr(const Slot* s) { return s->cls; }

// minimises the schedule and the fault list; keeps the class of the violation
static void minimise(Slot* s, Replay& r, u64 budgetMs, int maxRuns, int& runs)
{
    u64 end = wallMs() + budgetMs;
    auto test = [&](const Replay & c) { if (runs >= maxRuns || wallMs() > end) return false; runs++; runOne(s, c.seed, &c, 0); return s->status == ST_VIOL && r.cls == s->cls; };
    auto shrink = [&](auto Replay::* member)
    {
        size_t chunk = (r.*member).size();
        if (!chunk) return;
        { Replay c = r; (c.*member).clear(); if (test(c)) { r = c; return; } }
        chunk = (chunk + 1) / 2;
        while (chunk >= 1 && runs < maxRuns && wallMs() < end)
        {
            bool any = false;
            for (size_t o = 0; o < (r.*member).size() && runs < maxRuns && wallMs() < end;)
            {
                Replay c = r; auto& v = c.*member;
                v.erase(v.begin() + o, v.begin() + std::min(o + chunk, v.size()));
                if (test(c)) { r = c; any = true; } else o += chunk;
            }
            if (chunk == 1 && !any) break;
            if (!any || chunk > (r.*member).size()) { if (chunk == 1) break; chunk = (chunk + 1) / 2; }
        }
    };
    shrink(&Replay::flt);
    shrink(&Replay::dec);
}

int main(int argc, char** argv)
{
    // a fixed address-space layout, environment and argument size make runs repeatable across processes
    if (!getenv("SIM_ARGS"))
    {
        std::string e = "SIM_ARGS="; for (int i = 1; i < argc; i++) { e += argv[i]; e += '\n'; }
        for (const char* k : {"SIM_STDERR", "SIM_SETUPOUT", "SIM_LOG"}) if (getenv(k)) { e += std::string("@") + k + "\n"; }
        if (e.size() > 16000) return 2;
        e.resize(16384, '\n');
        char* av[] = {(char*)"sim", nullptr}; char* ev[] = {(char*)e.c_str(), (char*)"LC_ALL=C", (char*)"PATH=/usr/bin:/bin", nullptr};
        personality(ADDR_NO_RANDOMIZE);
        execve("/proc/self/exe", av, ev);
        return 2;
    }
    mallopt(M_ARENA_MAX, 1); mallopt(M_MMAP_THRESHOLD, 256 << 10); mallopt(M_TRIM_THRESHOLD, 1 << 30);
    { void* bt[4]; backtrace(bt, 4); }
    dl_iterate_phdr(dlcb, nullptr);
    { cpu_set_t cs; CPU_ZERO(&cs); if (!sched_getaffinity(0, sizeof cs, &cs)) for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &cs) && g_ncpu < 256) g_cpus[g_ncpu++] = i; }
    // the setup sees fixed random numbers
    R_env.seed(12345, 99); R_work.seed(12345, 98);
    g_scratch = new std::string(); g_scratch->reserve(1000);
    for (Slot*& x : g_slots) x = (Slot*)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    arenaGet(16);
    FILE* keepOut = nullptr; int saved = dup(1), saved2 = dup(2); { int dn = REAL(open)("/dev/null", O_WRONLY); fflush(stdout); if (!strstr(getenv("SIM_ARGS"), "@SIM_SETUPOUT")) { dup2(dn, 1); dup2(dn, 2); } REAL(close)(dn); }
    if (sim::harness.setup) sim::harness.setup();
    std::cout.flush(); fflush(stdout); dup2(saved, 1); dup2(saved2, 2); (void)keepOut;
    int rc = 0;
    if (pipe(g_cmdPipe)) return 2;
    pid_t coord = fork();
    if (coord) { close(g_cmdPipe[1]); int z = zygote(coord); return z; }
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    // from here on: the coordinator.  Nothing above depends on the arguments, so that the zygote's memory is
    // the same in every process.
    bool showLog = false; std::vector<std::string> args(1);
    { std::string e = getenv("SIM_ARGS"), w; for (char c : e) if (c == '\n') { if (w == "@SIM_STDERR") g_sh->showErr = 1; else if (w == "@SIM_SETUPOUT") ; else if (w == "@SIM_LOG") showLog = true; else if (!w.empty()) args.push_back(w); w.clear(); } else w += c; }
    argc = args.size();
    u64 first = 1, count = 100; double tlimit = 1e9; int jobs = 8; std::string out, replayIn, replayOut = "replay.txt", tmpBase = "/tmp"; std::vector<std::string> known; bool one = false, verifyDet = true;
    int detEvery = 50; u64 checkReplay = 0;
    for (int i = 1; i < argc; i++)
    {
        std::string a = args[i]; auto nx = [&]() { return std::string(i + 1 < argc ? args[++i] : ""); };
        if (a == "--first") first = strtoull(nx().c_str(), 0, 10);
        else if (a == "--count") count = strtoull(nx().c_str(), 0, 10);
        else if (a == "--time") tlimit = atof(nx().c_str());
        else if (a == "--jobs") jobs = atoi(nx().c_str());
        else if (a == "--out") out = nx();
        else if (a == "--replay") replayIn = nx();
        else if (a == "--replay-out") replayOut = nx();
        else if (a == "--known") known.push_back(nx());
        else if (a == "--tmp") tmpBase = nx();
        else if (a == "--det-every") detEvery = atoi(nx().c_str());
        else if (a == "--wall") g_wallLimit = 1000 * atoi(nx().c_str());
        else if (a == "--check-replay") checkReplay = strtoull(nx().c_str(), 0, 10);
        else if (a == "--one") { one = true; first = strtoull(nx().c_str(), 0, 10); }
    }
    jobs = std::min(jobs, NSLOT - 3);
    char tb[512]; snprintf(tb, sizeof tb, "%s/simscratch.%s.%010d", tmpBase.c_str(), sim::harness.property, (int)getpid());
    g_tmp = tb; mkdir(tb, 0700);
    for (int i = 0; i < 64; i++) snprintf(g_sh->dirs[i], 512, "%.480s/w%d", g_tmp.c_str(), 100 + i);
    if (!replayIn.empty())
    {
        Replay r; if (!readReplay(replayIn.c_str(), r)) { fprintf(stderr, "cannot read %s\n", replayIn.c_str()); rmrf(g_tmp); return 2; }
        Slot* s = newSlot(); bool ok = runOne(s, r.seed, &r, 0);
        bool same = ok && s->status == ST_VIOL && r.cls == s->cls && s->schedHash == r.schedHash && s->stateHash == r.stateHash;
        printf("replay: status=%d class=%s schedhash=%llu statehash=%llu %s\n%s\n", s->status, s->cls, (unsigned long long)s->schedHash, (unsigned long long)s->stateHash, same ? "EXACT" : "DIFFERENT", s->msg);
        if (showLog) fwrite(s->log, 1, s->logLen, stdout);
        rmrf(g_tmp);
        return same ? 1 : s->status == ST_OK ? 0 : 3;
    }
    if (checkReplay)
    {
        // self test: the recorded decisions of a seed must reproduce its schedule and state
        int bad = 0; Slot* s = newSlot();
        for (u64 k = 0; k < checkReplay; k++)
        {
            runOne(s, first + k, nullptr, 0); Replay r; toReplay(s, r); int st = s->status; r.byDecisions = true;
            runOne(s, first + k, &r, 0);
            if (s->schedHash != r.schedHash || s->stateHash != r.stateHash || s->status != st) { bad++; printf("seed %llu: status %d/%d sched %d state %d ndec %zu/%d\n", (unsigned long long)(first + k), st, s->status, s->schedHash == r.schedHash, s->stateHash == r.stateHash, r.dec.size(), s->ndec); }
        }
        printf("%d of %llu decision replays differ\n", bad, (unsigned long long)checkReplay);
        rmrf(g_tmp); return bad != 0;
    }
    if (one)
    {
        Slot* s = newSlot(); u64 t0 = wallMs(); bool ok = runOne(s, first, nullptr, 0);
        printf("seed %llu ended=%d status=%d class=%s threads=%d steps=%llu switches=%llu sched=%llx state=%llx vtime=%.3fms wall=%llums nontrivial=%d\n%s\n%s\n", (unsigned long long)first, ok, s->status, s->cls, s->threads, (unsigned long long)s->steps, (unsigned long long)s->switches, (unsigned long long)s->schedHash, (unsigned long long)s->stateHash, s->vtime / 1e6, (unsigned long long)(wallMs() - t0), s->nontrivial, s->msg, s->sample);
        fwrite(s->log, 1, s->logLen, stdout);
        for (int i = 0; i < NPROBE && s->probes[i].name[0]; i++) printf("  probe %s=%llu\n", s->probes[i].name, (unsigned long long)s->probes[i].n);
        for (int i = 0; i < NPROBE && s->faults[i].name[0]; i++) printf("  fault %s=%llu\n", s->faults[i].name, (unsigned long long)s->faults[i].n);
        rmrf(g_tmp);
        return s->status == ST_VIOL;
    }
    // ---- seeded search -----------------------------------------------------------------------
    struct W { bool pid = false; Slot* s = nullptr; u64 t0 = 0; int kind = 0; u64 h1 = 0, h2 = 0; };
    std::vector<W> w(jobs); for (W& x : w) x.s = newSlot();
    u64 start = wallMs(), next = first, done = 0, nviol = 0, nontriv = 0, discards = 0, timeouts = 0, steps = 0, switches = 0, vtime = 0, multi = 0, detChecks = 0, detBad = 0; u64 slowest = 0, slowestSeed = 0;
    std::unordered_set<u64> hSched, hState, hNon; std::map<std::string, u64> probes, faults; std::map<std::string, u64> knownSeen; std::map<std::string, std::string> knownMsg; std::vector<std::string> samples; std::map<int, u64> thrHist;
    std::map<std::string, u64> runsWithFault;
    u64 violSeed = 0; std::string violCls; bool found = false; std::vector<u64> detQueue; std::map<u64, std::pair<u64, u64>> detExpect;
    auto reap = [&](W & x, bool timeout)
    {
        Slot* s = x.s;
        if (x.kind == 1)
        {
            detChecks++;
            auto e = detExpect[s->seed];
            if (!timeout && (e.first != s->schedHash || e.second != s->stateHash)) { detBad++; fprintf(stderr, "seed %llu is not repeatable\n", (unsigned long long)s->seed); }
            return;
        }
        if (timeout) { timeouts++; fprintf(stderr, "seed %llu: wall-clock limit\n", (unsigned long long)s->seed); return; }
        u64 dt = wallMs() - x.t0; if (dt > slowest) { slowest = dt; slowestSeed = s->seed; }
        done++; steps += s->steps; switches += s->switches; vtime += s->vtime; thrHist[s->threads]++;
        if (s->threads > 1) multi++;
        u64 h = mix(s->schedHash, s->stateHash); hSched.insert(s->schedHash); hState.insert(s->stateHash);
        if (s->status == ST_DISCARD) discards++;
        if (s->nontrivial) { nontriv++; hNon.insert(h); }
        for (int i = 0; i < NPROBE && s->probes[i].name[0]; i++) probes[s->probes[i].name] += s->probes[i].n;
        for (int i = 0; i < NPROBE && s->faults[i].name[0]; i++) { faults[s->faults[i].name] += s->faults[i].n; runsWithFault[s->faults[i].name]++; }
        if (samples.size() < 3 && s->nontrivial && s->sample[0]) samples.push_back("seed " + std::to_string(s->seed) + ": " + s->sample);
        if (s->status == ST_VIOL)
        {
            std::string c = classStr(s); bool k = std::find(known.begin(), known.end(), c) != known.end();
            if (k) { if (!knownSeen[c]++) knownMsg[c] = s->msg; }
            else { nviol++; if (!found || s->seed < violSeed) { found = true; violSeed = s->seed; violCls = c; } }
        }
        else if (s->status == ST_NONE) { timeouts++; fprintf(stderr, "seed %llu: run ended without a result\n", (unsigned long long)s->seed); }
        if (detEvery && s->seed % detEvery == 0 && s->status != ST_NONE) { detExpect[s->seed] = std::make_pair(s->schedHash, s->stateHash); detQueue.push_back(s->seed); }
    };
    bool stop = false;
    for (;;)
    {
        bool busy = false;
        for (int i = 0; i < jobs; i++)
        {
            W& x = w[i];
            if (x.pid)
            {
                int st;
                if (finished(x.s, st))
                {
                    if (x.s->status == ST_NONE && WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL) { x.s->status = ST_VIOL; snprintf(x.s->cls, sizeof x.s->cls, "crash-signal"); snprintf(x.s->msg, sizeof x.s->msg, "killed by signal %d", WTERMSIG(st)); }
                    x.pid = false; reap(x, false);
                }
                else if ((i64)(wallMs() - x.t0) > g_wallLimit) { killRun(x.s); x.pid = false; reap(x, true); }
            }
            if (!x.pid)
            {
                if (found || (wallMs() - start) / 1000.0 > tlimit) stop = true;
                if (!detQueue.empty() && !found) { u64 sd = detQueue.back(); detQueue.pop_back(); x.kind = 1; x.t0 = wallMs(); x.pid = true; launch(x.s, sd, nullptr, i); }
                else if (!stop && next < first + count) { x.kind = 0; x.t0 = wallMs(); x.pid = true; launch(x.s, next++, nullptr, i); }
            }
            if (x.pid) busy = true;
        }
        if (!busy) break;
        timespec ts = {0, 150000}; REAL(nanosleep)(&ts, nullptr);
    }
    double wall = (wallMs() - start) / 1000.0;
    std::string vmsg; int minRuns = 0; size_t decBefore = 0, decAfter = 0, fltBefore = 0, fltAfter = 0; std::string verdict = "ok"; std::string vmode;
    if (found)
    {
        Slot* s = newSlot(); Replay r0, r; verdict = "violation";
        bool okA = runOne(s, violSeed, nullptr, 0); toReplay(s, r0);
        bool rep = okA && s->status == ST_VIOL && violCls == s->cls;
        u64 ha = s->schedHash, hb = s->stateHash; int over = s->decOverflow;
        runOne(s, violSeed, nullptr, 1);
        rep = rep && s->status == ST_VIOL && violCls == s->cls && ha == s->schedHash && hb == s->stateHash;
        if (!rep) { verdict = "not-reproducible"; vmsg = s->msg; }
        else
        {
            decBefore = r0.dec.size(); fltBefore = r0.flt.size(); vmsg = r0.msg;
            r = r0; r.byDecisions = true;
            bool d = !over && (runOne(s, r.seed, &r, 0), s->status == ST_VIOL && violCls == s->cls);
            if (getenv("SIM_ARGS") && showLog) fprintf(stderr, "by decisions: d=%d over=%d status=%d cls=%s ndec=%zu %s\n", d, over, s->status, s->cls, r.dec.size(), s->msg);
            if (d)
            {
                minimise(s, r, 40000, 400, minRuns);
                runOne(s, r.seed, &r, 0); std::string c1 = s->cls; toReplay(s, r0); u64 x1 = s->schedHash, x2 = s->stateHash;
                Replay fin = r; fin.msg = s->msg; fin.schedHash = x1; fin.stateHash = x2; fin.byDecisions = true;
                runOne(s, r.seed, &fin, 1);
                if (s->status == ST_VIOL && violCls == s->cls && x1 == s->schedHash && x2 == s->stateHash) { r = fin; vmode = "decisions"; vmsg = r.msg; }
                else d = false;
            }
            if (!d) { runOne(s, violSeed, nullptr, 0); toReplay(s, r); r.byDecisions = false; vmode = "seed"; }
            decAfter = r.byDecisions ? r.dec.size() : 0; fltAfter = r.flt.size();
            writeReplay(replayOut, r, s);
        }
    }
    FILE* f = out.empty() ? stdout : REAL(fopen)(out.c_str(), "w");
    auto jmap = [&](const std::map<std::string, u64>& m) { std::string o = "{"; for (auto& k : m) { if (o.size() > 1) o += ","; o += jesc(k.first.c_str()) + ":" + std::to_string(k.second); } return o + "}"; };
    fprintf(f, "{\"verdict\":\"%s\",\"class\":%s,\"message\":%s,\"seed\":%llu,\"mode\":\"%s\",\"minimise_runs\":%d,\"decisions_before\":%zu,\"decisions_after\":%zu,\"faults_before\":%zu,\"faults_after\":%zu,\n", verdict.c_str(), jesc(violCls.c_str()).c_str(), jesc(vmsg.c_str()).c_str(), (unsigned long long)violSeed, vmode.c_str(), minRuns, decBefore, decAfter, fltBefore, fltAfter);
    fprintf(f, "\"runs\":%llu,\"first_seed\":%llu,\"next_seed\":%llu,\"wall_s\":%.3f,\"nontrivial\":%llu,\"distinct_nontrivial\":%zu,\"distinct_schedules\":%zu,\"distinct_states\":%zu,\"discards\":%llu,\"timeouts\":%llu,\"steps\":%llu,\"switches\":%llu,\"virtual_s\":%.6f,\"multi_thread_runs\":%llu,\"det_checks\":%llu,\"det_bad\":%llu,\"violating_runs\":%llu,\"slowest_ms\":%llu,\"slowest_seed\":%llu,\n", (unsigned long long)done, (unsigned long long)first, (unsigned long long)next, wall, (unsigned long long)nontriv, hNon.size(), hSched.size(), hState.size(), (unsigned long long)discards, (unsigned long long)timeouts, (unsigned long long)steps, (unsigned long long)switches, vtime / 1e9, (unsigned long long)multi, (unsigned long long)detChecks, (unsigned long long)detBad, (unsigned long long)nviol, (unsigned long long)slowest, (unsigned long long)slowestSeed);
    fprintf(f, "\"probes\":%s,\n\"faults\":%s,\n\"runs_with_fault\":%s,\n", jmap(probes).c_str(), jmap(faults).c_str(), jmap(runsWithFault).c_str());
    fprintf(f, "\"known\":{"); bool c = false; for (auto& k : knownSeen) { fprintf(f, "%s%s:[%llu,%s]", c ? "," : "", jesc(k.first.c_str()).c_str(), (unsigned long long)k.second, jesc(knownMsg[k.first].c_str()).c_str()); c = true; }
    fprintf(f, "},\n\"samples\":["); for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s%s", i ? "," : "", jesc(samples[i].c_str()).c_str());
    fprintf(f, "]}\n");
    if (f != stdout) REAL(fclose)(f);
    rmrf(g_tmp);
    if (verdict == "violation") rc = 1; else if (verdict != "ok") rc = 2;
    return rc;
}
