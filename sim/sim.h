// Deterministic simulation runtime: public interface used by harnesses.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <string>
#include <vector>
#include <functional>

namespace sim
{
    // ---- to be provided by each harness -------------------------------------------------
    struct Harness
    {
        const char* property;
        void (*setup)();               // once per process, before any fork; must be deterministic
        void (*run)();                 // one simulated run (own process, main simulated thread)
    };
    extern Harness harness;            // defined by the harness

    // ---- workload randomness (seeded, independent of the schedule) -----------------------
    uint64_t rnd();
    uint64_t rnd(uint64_t n);          // [0,n)
    int rint(int lo, int hi);          // inclusive
    double runit();                    // [0,1)
    double rreal(double lo, double hi);
    bool chance(double p);
    uint64_t seed();                   // seed of this run
    template <class C> auto pick(C& c) -> decltype(c[0])& { return c[rnd(c.size())]; }

    // ---- verdicts --------------------------------------------------------------------------
    // Stops the run at once and reports a violation.  cls is a short stable class name.
    [[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    // Stops the run: it explored nothing of use (counted, not a violation)
    [[noreturn]] void discard(const char* why);
    void event(uint64_t v);            // folds an observable into the run's state hash
    void event(const char* tag, uint64_t v = 0);
    void eventf(double v);
    void probe(const char* name, uint64_t n = 1); // reach probe
    void nontrivial();                 // marks the run as non-trivial by the harness' rule
    void sample(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // human-readable description of this run
    void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));     // history shown in the replay

    // ---- scheduling ------------------------------------------------------------------------
    int spawn(std::function<void()> f, const char* name = "");  // simulated thread
    void join(int id);
    void joinAll();
    void yield();                      // a scheduling point
    int self();
    uint64_t steps();                  // scheduling points passed so far (all threads)
    struct NoPreempt { NoPreempt(); ~NoPreempt(); };
    struct Preempt { int saved; Preempt(); ~Preempt(); };  // re-enables inside NoPreempt
    // Expectation of a blocked / live-locked system: violation raised by the runtime
    void setStepLimit(uint64_t steps, const char* what);        // absolute budget from now
    void clearStepLimit();
    uint64_t now();                    // virtual time, ns (monotonic)
    void sleepNs(uint64_t ns);
    // waits (virtual, cooperative) until pred() or the number of steps of other threads is used up
    bool waitFor(const std::function<bool()>& pred, uint64_t maxSteps);
    int liveThreads();                 // simulated threads which did not finish

    // ---- environment / faults ------------------------------------------------------------
    struct Opts
    {
        // scheduling
        bool allowPreempt = true;
        int maxGapLog2 = 16;           // largest mean gap between preemptions (2^x memory accesses)
        int minGapLog2 = 1;
        // virtual time
        double tickNsLo = 0.5, tickNsHi = 20.0;  // virtual ns per scheduling point (log-uniform per run)
        bool clockJumps = false;       // realtime clock jumps
        double clockJumpP = 0.02;      // per realtime clock read
        double createFailP = 0;        // pthread_create -> EAGAIN
        double spuriousP = 0;          // spurious condition wake-ups
    };
    Opts& opts();                      // to be changed in setup() (or at the start of run())

    // file faults, active only for paths below scratch()
    namespace io
    {
        const std::string& scratch();  // directory of this run
        struct Plan
        {
            long capacity = -1;        // bytes that may be written before ENOSPC
            long eioWriteAt = -1;      // byte offset (cumulative) at which writes fail with EIO once/always
            bool eioOnce = false;
            double shortReadP = 0, eintrP = 0, shortWriteP = 0;
            long eioReadAt = -1;       // cumulative read byte offset at which reads fail with EIO
            long crashWriteAt = -1;    // cumulative byte offset at which the process "crashes" (onCrash is called)
            bool failClose = false;    // fclose/close reports EIO (delayed write error)
            bool failOpen = false;
        };
        Plan& plan();                  // current plan (reset with plan() = Plan())
        struct Stats { long written = 0, read = 0; long faults = 0; long opens = 0, closes = 0, writeFaults = 0, readFaults = 0; };
        Stats& stats();
        void resetStats();
        struct Crash {};               // thrown... never: a crash ends the process of the phase
        // runs f in a forked child sharing the scratch directory; returns exit status (0 ok, 77 simulated crash, else)
    }
    // allocation failure: the n-th operator new (from now, by the calling simulated thread) throws bad_alloc
    namespace mem
    {
        void failNew(long nth, bool malloc_too = false, long minSize = 0);
        void failAny(long nth, bool malloc_too = false, long minSize = 0);   // ... by any simulated thread
        void off();
        long count();                  // allocations seen since failNew()
        bool fired();
        // live bytes counter of operator new/malloc made by the program (approximate)
    }
    namespace fault { void note(const char* kind, uint64_t n = 1); bool decide(const char* site, double p); }
}
