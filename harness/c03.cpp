// C03: a planning thread can be started, stopped, polled and destroyed at any moment by anybody.
#include "plan.h"
#include <MotionPlanning/Planner/PlanningThread.h>
using namespace plan;
static void setup() { setupModels(); }

struct Ctl;
// the real planners, with a record of every call of plan()
struct Rec { int calls = 0, active = 0; bool last = false, threw = false, reset = false; CSpacePathPtr sol; Ctl* ctl = nullptr; };
template <class P> struct RecPlanner : P
{
    Rec* rec; template <class... A> RecPlanner(Rec* r, A... a) : P(a...), rec(r) {}
    bool plan(bool q) override;
};
struct ProbeThread : PlanningThread { using PlanningThread::PlanningThread; bool finished() { boost::lock_guard<boost::mutex> l(mutex); return plannerFinished; } };
struct Ctl
{
    Problem s; Hook hook; CSpaceSampledPtr space; Modes m; Rec rec; MotionPlannerPtr planner; Rrt* rrt = nullptr; ProbeThread* th = nullptr; char desc[260];
    bool endless = false, oomPlan = false, oomStart = false; double bound = 0;
    // requests so far
    int startsBegun = 0, startsDone = 0; int controllers = 1;
    int stopRun = -1; long stopChecks = 0;         // a stop request was answered for this run
    bool interruptInside = false; long interruptAt = -1; bool faulty = false;
    std::string hist;
    void onCheck()
    {
        if (hook.planChecks == interruptAt) { sim::fault::note("interrupt-from-planner"); th->interrupt(false); markStop(startsBegun); }
        if (stopRun == startsBegun && startsBegun == startsDone && hook.planChecks - stopChecks > bound && rec.calls == callAtStop)
            sim::violation("stop-ignored", "%ld checks after a stop request was accepted, one cycle needs at most %g (%s)", hook.planChecks - stopChecks, bound, desc);
    }
    int callAtStop = -1;
    void markStop(int run) { sim::NoPreempt np; if (run != startsBegun || startsBegun != startsDone || !rec.active || stopRun == run) return; stopRun = run; stopChecks = hook.planChecks; callAtStop = rec.calls; }
};
template <class P> bool RecPlanner<P>::plan(bool q)
{
    {
        sim::NoPreempt np;
        if (rec->active++) sim::violation("two-runs", "the planner is run by two threads at once (%s)", rec->ctl->desc);
        rec->calls++; rec->threw = false; rec->last = rec->reset = false; rec->sol.reset(); rec->ctl->hook.planChecks = 0; rec->ctl->hook.stopFired = rec->ctl->hook.throwFired = false;
        sim::event("plan");
    }
    bool r = false;
    try { if (rec->ctl->oomPlan) sim::mem::failNew((long)std::exp(sim::rreal(0, 8)), false, 0); r = P::plan(q); if (rec->ctl->oomPlan) sim::mem::off(); } catch (...) { sim::NoPreempt np; if (rec->ctl->oomPlan) sim::mem::off(); rec->threw = true; rec->active--; sim::probe("planner-threw"); throw; }
    sim::NoPreempt np; rec->last = r; rec->sol = this->getSolution(); rec->active--; sim::event("planned", r); sim::probe(r ? "planner-succeeded" : "planner-failed");
    return r;
}
static void doStart(Ctl& c)
{
    int calls; bool quiet, was; { sim::NoPreempt np; c.startsBegun++; calls = c.rec.calls; quiet = c.controllers == 1; }
    was = quiet && c.th->isRunning();
    if (quiet && !was) { sim::NoPreempt np; calls = c.rec.calls; }   // a run started before may have begun and ended just now
    bool threw = false;
    try { if (c.oomStart && sim::chance(0.6)) sim::mem::failNew(sim::rint(1, 6), false, 0); c.th->start(); } catch (const std::exception&) { threw = true; sim::probe("start-failed"); }
    { sim::NoPreempt np; if (c.oomStart) sim::mem::off(); c.startsDone++; }
    if (quiet && threw)
    {
        if (was && c.rec.active && c.rec.calls == calls) sim::violation("start-threw", "start() throws although a run is going on (%s)", c.desc);
        if (c.th->isRunning()) sim::violation("running-after-failed-start", "start() failed but the run is reported as going on (%s)", c.desc);
    }
    if (quiet && !threw && !was)
    {
        // exactly one run of the planner comes out of it
        bool ok = sim::waitFor([&] { return c.rec.calls > calls; }, 40000000);
        if (!ok) sim::violation("not-started", "start() returned but the planner is never run (%s)", c.desc);
    }
    c.hist += threw ? " start!" : " start";
}
static void doStop(Ctl& c, bool wait, bool viaStop)
{
    int begun, done; bool act; { sim::NoPreempt np; begun = c.startsBegun; done = c.startsDone; act = c.rec.active; }
    if (viaStop) c.th->stop(); else c.th->interrupt(wait);
    if (viaStop || wait)
    {
        bool same, active; { sim::NoPreempt np; same = begun == done && c.startsBegun == begun; active = c.rec.active; }
        if (same && active) sim::violation("running-after-stop", "stop() returned while the planner is still at work (%s)", c.desc);
        bool r = c.th->isRunning(); { sim::NoPreempt np; same = begun == done && c.startsBegun == begun; }
        if (same && r) sim::violation("running-after-stop", "after stop() returned and without another start the run is reported as going on (%s)", c.desc);
        sim::probe(act ? "stopped-at-work" : "stopped-otherwise");
    }
    else if (begun == done) c.markStop(begun);
    c.hist += wait || viaStop ? " stop" : " interrupt";
}
static void doPoll(Ctl& c)
{
    int call0; bool act0; { sim::NoPreempt np; call0 = c.rec.calls; act0 = c.rec.active; }
    bool r = c.th->isRunning();
    { sim::NoPreempt np; if (act0 && c.rec.active && c.rec.calls == call0 && !r) sim::violation("not-running", "the planner is at work but the run is reported as finished (%s)", c.desc); }
    if (c.th->getPlanner() != c.planner) sim::violation("other-planner", "getPlanner() returns something else (%s)", c.desc);
    sim::probe(r ? "polled-running" : "polled-idle");
}
static void waitEnd(Ctl& c)
{
    if (c.endless) { doStop(c, true, true); return; }
    for (int i = 0; c.th->isRunning(); i++) { sim::sleepNs(200000); if (i > 2000000) sim::violation("never-ends", "the run does not end (%s)", c.desc); }
}
// nobody else is at work
static void quietCheck(Ctl& c)
{
    sim::NoPreempt np;
    if (c.rec.active) sim::violation("finished-at-work", "the run is reported as finished while the planner is at work (%s)", c.desc);
    bool fin; { sim::Preempt p; fin = c.th->finished(); }
    if (c.rec.calls && fin != c.rec.last) sim::violation("wrong-result", "the run is recorded as %s, the planner %s (%s)", fin ? "successful" : "not successful", c.rec.last ? "succeeded" : "did not succeed", c.desc);
    if (c.rec.reset) return; CSpacePathPtr sol = c.planner->getSolution();
    if (c.rec.last && !sol) sim::violation("success-without-solution", "a successful run left no solution (%s)", c.desc);
    if (c.rec.calls && !c.rec.last && !c.rec.threw && sol) sim::violation("solution-without-success", "a run without success hands out a solution (%s)", c.desc);
    if (c.rec.last && !c.hook.forceFree && !c.hook.dead) judge(c.s, sol->getPoints(), c.rrt->getStartConfig(), c.rrt->getGoalConfig(), tolRun(c.s, c.m.connectOnly()), maxStep(c.s), c.desc);
    if (c.rec.last) sim::probe("solutions-judged");
}
static void controller(Ctl& c, int n)
{
    VirtualRobot::PRNG64Bit().seed(sim::rnd());
    for (int i = 0; i < n; i++)
        switch (sim::rint(0, 9))
        {
            case 0: case 1: case 2: case 3: doStart(c); break;
            case 4: doStop(c, false, false); break;
            case 5: doStop(c, true, sim::chance(0.7)); if (c.controllers == 1) quietCheck(c); break;
            case 6: doPoll(c); break;
            case 7: sim::sleepNs((uint64_t)std::exp(sim::rreal(5, 15))); break;
            case 8: if (c.controllers == 1) { waitEnd(c); quietCheck(c); } break;
            case 9: if (c.controllers == 1 && sim::chance(0.5)) { waitEnd(c); c.rrt->reset(); c.rec.reset = true; Cfg q; { sim::NoPreempt np; if (!c.s.randomValid(q)) break; } c.rrt->setStart(q); { sim::NoPreempt np; if (!c.s.randomValid(q)) break; } c.rrt->setGoal(q); } break;
        }
}
static void run()
{
    Ctl c; makeScene(c.s, sim::chance(0.2), true); c.hook.scene = &c.s; c.rec.ctl = &c;
    c.m = randomModes(c.s); int nodes = sim::chance(0.1) ? sim::rint(3, 60) : 4000; c.space = makeSpace(c.s, &c.hook, nodes);
    if (c.m.bi) { auto* p = new RecPlanner<BiRrt>(&c.rec, c.space, c.m.a, c.m.b, c.m.ext); c.rrt = p; } else { auto* p = new RecPlanner<Rrt>(&c.rec, c.space, c.m.a, c.m.pGoal, c.m.ext); c.rrt = p; }
    c.planner.reset(c.rrt);
    double d = 0; for (unsigned i = 0; i < c.s.dim; i++) { double x = (c.s.hi[i] - c.s.lo[i]) * (c.s.weighted ? c.s.weights[i] : 1); d += x * x; } c.bound = 2 * (2 * std::sqrt(d) / c.s.dcd + 6) + 6;
    Cfg a, b; if (!c.s.randomValid(a) || !c.s.randomValid(b) || c.s.dist(a, b, true) < c.s.dcd) return;
    if (sim::chance(0.95)) { c.rrt->setStart(a); c.rrt->setGoal(b); }
    c.endless = sim::chance(0.45); c.rrt->setMaxCycles(c.endless ? 2000000000 : sim::pick(*new std::vector<int>{1, 5, 30, 150})); c.rrt->setPlanningTimeout(1e9);
    if (c.endless) c.hook.dead = true;       // nothing is valid any more: only a stop request ends the search
    long at = (long)std::exp(sim::rreal(0, 6)); int fk = sim::rint(0, 6);
    if (fk == 0) { c.hook.throwAt = at; c.hook.oom = sim::chance(0.3); c.hook.odd = sim::chance(0.3); }
    if (fk == 1) { c.hook.slowP = 0.1; c.hook.slowNs = 100000; }
    if (fk == 2) c.interruptAt = at;
    if (fk == 3) sim::opts().createFailP = 0.3;
    c.oomPlan = fk == 4 && sim::chance(0.5); c.oomStart = fk == 4 && !c.oomPlan;
    if (sim::chance(0.3)) sim::opts().spuriousP = 0.2;
    c.hook.onCheck = [&c] { c.onCheck(); };
    c.controllers = sim::chance(0.4) ? 1 : sim::rint(2, 3);
    snprintf(c.desc, sizeof c.desc, "%s%s, robot %d, %zu balls, %d controllers", modeStr(c.m).c_str(), c.endless ? " (cannot succeed)" : "", c.s.model, c.s.balls.size(), c.controllers);
    c.th = new ProbeThread(c.planner);
    sim::setStepLimit(1200000000ULL, "starting and stopping a planning thread");
    if (c.controllers == 1) controller(c, sim::rint(1, 9));
    else { std::vector<int> ids; for (int i = 0; i < c.controllers; i++) { int n = sim::rint(1, 6); Ctl* p = &c; ids.push_back(sim::spawn([p, n] { try { controller(*p, n); } catch (const std::exception&) { sim::probe("controller-exception"); } }, "controller")); } 
        // not joinAll(): the planning thread may be at work
        for (int i : ids) sim::join(i); }
    c.oomPlan = c.oomStart = false; sim::mem::off(); c.controllers = 1; sim::opts().createFailP = 0; sim::nontrivial();
    bool reuse = sim::chance(0.5);
    if (reuse)
    {
        if (sim::chance(0.5)) { waitEnd(c); quietCheck(c); } else doStop(c, true, true);
        quietCheck(c);
        // the same object again, on a problem it must solve
        if (c.s.boxPose.empty())
        {
            c.hook.disarm(); c.hook.dead = false; c.hook.forceFree = true; c.interruptAt = -1; c.endless = false; c.rrt->setMaxCycles(4000); bool ok = false, small = nodes < 3000;
            Cfg s, g; { int t = 0; do { s = c.s.random(); g = c.s.random(); } while (c.s.dist(s, g, true) < c.s.step && t++ < 100); }
            for (int k = 0; k < 6 && !ok && !small; k++) { c.rrt->reset(); c.rrt->setStart(s); c.rrt->setGoal(g); doStart(c); waitEnd(c); quietCheck(c); ok = c.rec.last; }
            if (!ok && !small) sim::violation("not-restartable", "the thread does not solve a free problem after:%s (%s)", c.hist.c_str(), c.desc);
            sim::probe("restarted");
        }
    }
    else sim::probe("destroyed-while-in-use");
    delete c.th; c.th = nullptr;
    { sim::NoPreempt np; if (c.rec.active) sim::violation("running-after-destruction", "the planner is at work after the thread object was destroyed (%s)", c.desc); }
    int calls = c.rec.calls; sim::sleepNs(1000000); for (int i = 0; i < 50; i++) sim::yield();
    if (c.rec.calls != calls) sim::violation("running-after-destruction", "the planner is run after the thread object was destroyed (%s)", c.desc);
    sim::clearStepLimit();
    sim::sample("%s:%s", c.desc, c.hist.c_str());
}
sim::Harness sim::harness = {"C03", setup, run};
