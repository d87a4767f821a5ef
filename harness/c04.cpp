// C04: background path processing can be started, stopped, polled and destroyed at any moment by anybody.
#include "plan.h"
#include <MotionPlanning/PostProcessing/ShortcutProcessor.h>
#include <MotionPlanning/PostProcessing/ElasticBandProcessor.h>
#include <MotionPlanning/PostProcessing/PathProcessingThread.h>
using namespace plan;
static void setup() { setupModels(); }

struct Ctl;
struct Rec { int calls = 0, active = 0; bool threw = false, stopped = false; CSpacePathPtr res; std::vector<CSpacePathPtr> all; std::vector<std::vector<Cfg>> pts; Ctl* ctl = nullptr; int rounds = 0; };
template <class P> struct RecProc : P
{
    Rec* rec; template <class... A> RecProc(Rec* r, A... a) : P(a...), rec(r) {}
    CSpacePathPtr optimize(int n) override;
};
struct ProbeThread : PathProcessingThread { using PathProcessingThread::PathProcessingThread; bool finished() { boost::lock_guard<boost::mutex> l(mutex); return processingFinished; } };
struct Ctl
{
    Problem s; Hook hook; CSpaceSampledPtr space; CSpacePathPtr in; std::vector<Cfg> copy; Rec rec; PathProcessorPtr proc; ProbeThread* th = nullptr; char desc[260];
    bool band = false, endless = false, oomRun = false, oomStart = false, endFree = false; double bound = 0;
    int startsBegun = 0, startsDone = 0, controllers = 1, stopRun = -1, callAtStop = -1; long stopChecks = 0, interruptAt = -1;
    std::vector<std::pair<CSpacePathPtr, std::vector<Cfg>>> handed; std::string hist;
    void onCheck()
    {
        if (hook.planChecks == interruptAt) { sim::fault::note("interrupt-from-processor"); th->interrupt(false); markStop(startsBegun); }
        if (stopRun == startsBegun && startsBegun == startsDone && hook.planChecks - stopChecks > bound && rec.calls == callAtStop)
            sim::violation("stop-ignored", "%ld checks after a stop request was accepted, one round needs at most %g (%s)", hook.planChecks - stopChecks, bound, desc);
    }
    void markStop(int run) { sim::NoPreempt np; if (run != startsBegun || startsBegun != startsDone || !rec.active || stopRun == run) return; stopRun = run; stopChecks = hook.planChecks; callAtStop = rec.calls; }
};
template <class P> CSpacePathPtr RecProc<P>::optimize(int n)
{
    {
        sim::NoPreempt np;
        if (rec->active++) sim::violation("two-runs", "the processor is run by two threads at once (%s)", rec->ctl->desc);
        rec->calls++; rec->threw = false; rec->res.reset(); rec->rounds = n; rec->ctl->hook.planChecks = 0; sim::event("run", n);
    }
    CSpacePathPtr r;
    try { if (rec->ctl->oomRun) sim::mem::failNew((long)std::exp(sim::rreal(0, 8)), false, 0); r = P::optimize(n); if (rec->ctl->oomRun) sim::mem::off(); }
    catch (...) { sim::NoPreempt np; if (rec->ctl->oomRun) sim::mem::off(); rec->threw = true; rec->active--; sim::probe("processor-threw"); throw; }
    sim::NoPreempt np; rec->res = r; rec->all.push_back(r); rec->pts.push_back(r ? r->getPoints() : std::vector<Cfg>()); rec->active--; sim::event("done", r ? r->getNrOfPoints() : 0); sim::probe("processed");
    return r;
}
// a path handed out by the thread must be a complete result
static void take(Ctl& c, CSpacePathPtr p)
{
    sim::NoPreempt np; if (!p) { sim::probe("no-path"); return; }
    size_t k = 0; while (k < c.rec.all.size() && c.rec.all[k] != p) k++;
    if (k == c.rec.all.size()) sim::violation("unfinished-path", "a path is handed out which is not the result of a finished run (%s)", c.desc);
    const std::vector<Cfg> q = p->getPoints(); bool same = q.size() == c.rec.pts[k].size(); for (size_t i = 0; same && i < q.size(); i++) same = q[i] == c.rec.pts[k][i];
    if (!same) sim::violation("path-changed", "a path is handed out which differs from what the processor returned (%s)", c.desc);
    c.handed.push_back({p, q}); sim::probe("paths-handed-out");
}
static int rounds(Ctl& c) { return c.endless ? 2000000000 : sim::rint(0, 3) ? (int)std::exp(sim::rreal(0, 4.5)) : sim::rint(0, 2); }
static void doStart(Ctl& c)
{
    int calls, n = rounds(c); bool quiet, was; { sim::NoPreempt np; c.startsBegun++; calls = c.rec.calls; quiet = c.controllers == 1; }
    was = quiet && c.th->isRunning(); bool threw = false;
    if (quiet && !was) { sim::NoPreempt np; calls = c.rec.calls; }   // a run started before may have begun and ended just now
    try { if (c.oomStart && sim::chance(0.6)) sim::mem::failNew(sim::rint(1, 6), false, 0); c.th->start(n); } catch (const std::exception&) { threw = true; sim::probe("start-failed"); }
    { sim::NoPreempt np; if (c.oomStart) sim::mem::off(); c.startsDone++; }
    if (quiet && threw)
    {
        if (was && c.rec.active && c.rec.calls == calls) sim::violation("start-threw", "start() throws although a run is going on (%s)", c.desc);
        if (c.th->isRunning()) sim::violation("running-after-failed-start", "start() failed but the run is reported as going on (%s)", c.desc);
        take(c, c.th->getProcessedPath());
    }
    if (quiet && !threw && !was)
    {
        if (!sim::waitFor([&] { return c.rec.calls > calls; }, 40000000)) sim::violation("not-started", "start() returned but the processor is never run (%s)", c.desc);
        if (c.rec.calls == calls + 1 && c.rec.rounds != n) sim::violation("other-rounds", "%d rounds were requested, %d are run (%s)", n, c.rec.rounds, c.desc);
    }
    c.hist += threw ? " start!" : " start";
}
static void doStop(Ctl& c, bool wait, bool viaStop)
{
    int begun, done; bool act; { sim::NoPreempt np; begun = c.startsBegun; done = c.startsDone; act = c.rec.active; }
    if (viaStop) c.th->stop(); else c.th->interrupt(wait);
    if (viaStop || wait)
    {
        bool same, active; { sim::NoPreempt np; same = begun == done && c.startsBegun == begun; active = c.rec.active; }
        if (same && active) sim::violation("running-after-stop", "stop() returned while the processor is still at work (%s)", c.desc);
        bool r = c.th->isRunning(); { sim::NoPreempt np; same = begun == done && c.startsBegun == begun; }
        if (same && r) sim::violation("running-after-stop", "after stop() returned and without another start the run is reported as going on (%s)", c.desc);
        sim::probe(act ? "stopped-at-work" : "stopped-otherwise");
    }
    else if (begun == done) c.markStop(begun);
    c.hist += wait || viaStop ? " stop" : " interrupt";
}
static void doPoll(Ctl& c)
{
    int call0; bool act0; { sim::NoPreempt np; call0 = c.rec.calls; act0 = c.rec.active; }
    if (sim::chance(0.5))
    {
        bool r = c.th->isRunning();
        { sim::NoPreempt np; if (act0 && c.rec.active && c.rec.calls == call0 && !r) sim::violation("not-running", "the processor is at work but the run is reported as finished (%s)", c.desc); }
        sim::probe(r ? "polled-running" : "polled-idle");
    }
    else
    {
        CSpacePathPtr p = c.th->getProcessedPath();
        { sim::NoPreempt np; if (p && act0 && c.rec.active && c.rec.calls == call0) sim::violation("early-path", "a path is handed out while the processor is at work (%s)", c.desc); }
        take(c, p);
    }
    if (c.th->getPathProcessor() != c.proc) sim::violation("other-processor", "getPathProcessor() returns something else (%s)", c.desc);
}
static void waitEnd(Ctl& c)
{
    if (c.endless) { doStop(c, true, true); return; }
    for (int i = 0; c.th->isRunning(); i++) { sim::sleepNs(200000); if (i > 2000000) sim::violation("never-ends", "the run does not end (%s)", c.desc); }
}
static void quietCheck(Ctl& c)          // nobody else is at work
{
    sim::NoPreempt np;
    if (c.rec.active) sim::violation("finished-at-work", "the run is reported as finished while the processor is at work (%s)", c.desc);
    bool fin; CSpacePathPtr p; { sim::Preempt pr; fin = c.th->finished(); p = c.th->getProcessedPath(); }
    if (c.rec.calls && fin != (bool)c.rec.res) sim::violation("wrong-result", "the run is recorded as %s, the processor %s (%s)", fin ? "finished" : "not finished", c.rec.res ? "finished" : "failed", c.desc);
    if (p != c.rec.res && !(c.hist.find('!') != std::string::npos && !p)) sim::violation("other-path", "the path handed out after the end is not the result of the last run (%s)", c.desc);
    if (p) { take(c, p); if (!c.hook.forceFree && !c.hook.dead && !c.band) { judge(c.s, p->getPoints(), c.copy.front(), c.copy.back(), c.s.dcd * 1.01 + 1e-4, 1e30, c.desc); sim::probe("results-judged"); } }
}
static void controller(Ctl& c, int n)
{
    VirtualRobot::PRNG64Bit().seed(sim::rnd());
    for (int i = 0; i < n; i++)
        switch (sim::rint(0, 9))
        {
            case 0: case 1: case 2: case 3: doStart(c); break;
            case 4: doStop(c, false, false); break;
            case 5: doStop(c, true, sim::chance(0.7)); if (c.controllers == 1) quietCheck(c); break;
            case 6: case 9: doPoll(c); break;
            case 7: sim::sleepNs((uint64_t)std::exp(sim::rreal(5, 15))); break;
            case 8: if (c.controllers == 1) { waitEnd(c); quietCheck(c); } break;
        }
}
static bool makeInput(Ctl& c)
{
    Problem& s = c.s; Cfg a; if (!s.randomValid(a)) return false; c.in.reset(new CSpacePath(c.space)); c.copy.clear(); c.copy.push_back(a); int legs = sim::rint(0, 6);
    for (int l = 0, t = 0; l < legs && t < 100; t++)
    {
        Cfg d = s.random(); double f = sim::rreal(0.05, 0.6); for (unsigned i = 0; i < s.dim; i++) d[i] = std::min(s.hi[i], std::max(s.lo[i], (float)(c.copy.back()[i] + (d[i] - c.copy.back()[i]) * f)));
        if (s.dist(d, c.copy.back(), true) < 0.01 || !s.valid(d) || !c.space->isPathValid(c.copy.back(), d)) continue;
        CSpacePathPtr e = c.space->createPath(c.copy.back(), d); for (unsigned i = 1; i < e->getNrOfPoints(); i++) c.copy.push_back(e->getPoint(i)); l++;
        if (c.copy.size() > 60) break;
    }
    for (auto& q : c.copy) c.in->addPoint(q);
    return true;
}
static void run()
{
    Ctl c; c.band = sim::chance(0.3); makeScene(c.s, c.band || sim::chance(0.3), !c.band || sim::chance(0.5), c.band ? sim::rint(0, 1) : -1); c.hook.scene = &c.s; c.rec.ctl = &c;
    c.space = makeSpace(c.s, &c.hook, 10); if (!makeInput(c)) return;
    if (c.band) { RobotNodePtr node; for (auto& n : c.s.robot->getRobotNodeSet("ArmCol")->getAllRobotNodes()) if (n->getCollisionModel()) node = n; if (!node) return; c.proc.reset(new RecProc<ElasticBandProcessor>(&c.rec, c.in, c.space, node, c.s.obst, false)); }
    else c.proc.reset(new RecProc<ShortcutProcessor>(&c.rec, c.in, c.space, sim::chance(0.1)));
    double d = 0; for (unsigned i = 0; i < c.s.dim; i++) { double x = (c.s.hi[i] - c.s.lo[i]) * (c.s.weighted ? c.s.weights[i] : 1); d += x * x; } c.bound = 2 * (2 * std::sqrt(d) / c.s.dcd + 6) + 6;
    c.endless = sim::chance(0.35); if (c.endless && c.copy.size() < 3) c.endless = false;
    long at = (long)std::exp(sim::rreal(0, 6)); int fk = sim::rint(0, 6);
    if (fk == 0) { c.hook.throwAt = at; c.hook.oom = sim::chance(0.3); c.hook.odd = sim::chance(0.3); }
    if (fk == 1) { c.hook.slowP = 0.1; c.hook.slowNs = 100000; }
    if (fk == 2) c.interruptAt = at;
    if (fk == 3) sim::opts().createFailP = 0.3;
    c.oomRun = fk == 4 && sim::chance(0.5); c.oomStart = fk == 4 && !c.oomRun;
    if (sim::chance(0.3)) sim::opts().spuriousP = 0.2;
    c.hook.onCheck = [&c] { c.onCheck(); };
    c.controllers = sim::chance(0.4) ? 1 : sim::rint(2, 3);
    snprintf(c.desc, sizeof c.desc, "%s, %zu points, %s rounds, robot %d, %zu balls, %zu boxes, %d controllers", c.band ? "elastic band" : "shortcuts", c.copy.size(), c.endless ? "endless" : "few", c.s.model, c.s.balls.size(), c.s.boxPose.size(), c.controllers);
    c.th = new ProbeThread(c.proc);
    sim::setStepLimit(1200000000ULL, "starting and stopping a path processing thread");
    if (c.controllers == 1) controller(c, sim::rint(1, 9));
    else { std::vector<int> ids; for (int i = 0; i < c.controllers; i++) { int n = sim::rint(1, 6); Ctl* p = &c; ids.push_back(sim::spawn([p, n] { controller(*p, n); }, "controller")); } for (int i : ids) sim::join(i); }
    c.oomRun = c.oomStart = false; sim::mem::off(); c.controllers = 1; sim::opts().createFailP = 0; sim::nontrivial();
    if (sim::chance(0.5))
    {
        if (sim::chance(0.5)) { waitEnd(c); quietCheck(c); } else doStop(c, true, true);
        quietCheck(c); c.hook.disarm(); c.interruptAt = -1; c.endless = false;
        doStart(c); waitEnd(c); quietCheck(c);
        if (!c.rec.res) sim::violation("not-restartable", "the thread hands out no path any more after:%s (%s)", c.hist.c_str(), c.desc);
        sim::probe("restarted");
    }
    else sim::probe("destroyed-while-in-use");
    delete c.th; c.th = nullptr;
    { sim::NoPreempt np; if (c.rec.active) sim::violation("running-after-destruction", "the processor is at work after the thread object was destroyed (%s)", c.desc); }
    int calls = c.rec.calls; sim::sleepNs(1000000); for (int i = 0; i < 50; i++) sim::yield();
    if (c.rec.calls != calls) sim::violation("running-after-destruction", "the processor is run after the thread object was destroyed (%s)", c.desc);
    sim::clearStepLimit(); sim::NoPreempt np;
    for (auto& h : c.handed)
    {
        auto q = h.first->getPoints(); bool same = q.size() == h.second.size(); for (size_t i = 0; same && i < q.size(); i++) same = q[i] == h.second[i];
        if (!same) sim::violation("path-changed-later", "a path was changed after it had been handed out (%s)", c.desc);
        if (!q.size() || q.front() != c.copy.front() || q.back() != c.copy.back()) sim::violation("other-ends", "a path with other ends than the input was handed out (%s)", c.desc);
    }
    auto now = c.in->getPoints(); bool same = now.size() == c.copy.size(); for (size_t i = 0; same && i < now.size(); i++) same = now[i] == c.copy[i];
    if (!same) sim::violation("input-changed", "the input path was changed (%s)", c.desc);
    sim::sample("%s:%s", c.desc, c.hist.c_str());
}
sim::Harness sim::harness = {"C04", setup, run};
