// C06: planning leaves the robot, the search space and all locks as it found them, whatever way it ends.
#include "plan.h"
using namespace plan;
static void setup() { setupModels(); }

struct Snap
{
    bool upd; std::vector<bool> nodeUpd; float size, dcd; bool excl; Cfg lo, hi, w; int dim; bool weighted;
    static Snap of(const Problem& s, const CSpaceSampledPtr& c)
    {
        Snap r; r.upd = s.robot->getUpdateVisualizationStatus(); for (auto& n : s.robot->getRobotNodes()) r.nodeUpd.push_back(n->getUpdateVisualizationStatus());
        r.size = c->getSamplingSize(); r.dcd = c->getSamplingSizeDCD(); r.excl = c->hasExclusiveRobotAccess(); r.dim = c->getDimension(); r.lo.setZero(r.dim); r.hi = r.lo; r.w = c->getMetricWeights();
        for (int i = 0; i < r.dim; i++) { r.lo[i] = c->getBoundaryMin(i); r.hi[i] = c->getBoundaryMax(i); }
        return r;
    }
};
struct Job
{
    Problem* s; Hook hook; CSpaceSampledPtr space; boost::shared_ptr<Rrt> rrt; StubIkPtr ik; Modes m; unsigned nodes; char desc[240];
    Snap before; std::vector<Cfg> pool; std::string hist;
};
static void compareSpace(const Job& j, const Snap& a, const char* how)
{
    const Snap& b = j.before;
    if (a.size != b.size || a.dcd != b.dcd) sim::violation("sampling-size-changed", "sampling sizes %g/%g became %g/%g after planning %s (%s)", b.size, b.dcd, a.size, a.dcd, how, j.desc);
    if (a.excl != b.excl) sim::violation("protection-changed", "the protection mode of the search space changed after planning %s (%s)", how, j.desc);
    if (a.dim != b.dim || a.lo != b.lo || a.hi != b.hi || a.w != b.w) sim::violation("space-changed", "boundaries or weights of the search space changed after planning %s (%s)", how, j.desc);
}
static void compareRobot(const Job& j, const Snap& a, const char* how)
{
    if (a.upd != j.before.upd) sim::violation("visualization-status", "the robot's update-visualization status is %d instead of %d after planning %s (%s)", a.upd, j.before.upd, how, j.desc);
    if (a.nodeUpd != j.before.nodeUpd) sim::violation("visualization-status-node", "the update-visualization status of a robot node changed by planning %s (%s)", how, j.desc);
}
// Somebody else must get every lock; a lock left behind is a deadlock here
static void locksFree(Problem& s)
{
    sim::spawn([&s] { { CSpace::lock(); CSpace::unlock(); } { auto l = s.robot->getWriteLock(); } { auto l = s.robot->getReadLock(); } sim::probe("lock-probes"); }, "lock-probe");
    sim::joinAll();
}
// ways a call ends: planned, failed, threw
static const char* planOnce(Job& j, bool faults, bool quiet)
{
    j.hook.disarm(); j.hook.arm();
    j.rrt->setMaxCycles(sim::pick(*new std::vector<int>{1, 5, 20, 60, 120}));
    j.rrt->setPlanningTimeout(sim::chance(0.2) ? sim::rreal(0, 2) : 1e9);
    bool oom = false;
    if (faults)
    {
        long at = (long)std::exp(sim::rreal(0, 6));
        switch (sim::rint(0, 4)) { case 0: j.hook.stopAt = at; break; case 1: j.hook.throwAt = at; j.hook.oom = sim::chance(0.3); j.hook.odd = sim::chance(0.3); break; case 2: j.hook.slowP = 0.05; j.hook.slowNs = 400000; break; case 3: oom = true; break; default: break; }
    }
    if (oom) sim::mem::failNew((long)std::exp(sim::rreal(0, 8)), false, 0);
    const char* how;
    try { how = j.rrt->plan(quiet) ? "with success" : j.hook.stopFired ? "stopped" : "without success"; }
    catch (...) { how = "ended by an exception"; }
    sim::mem::off(); j.hook.disarm();
    sim::probe(how); j.hist += std::string(" ") + how;
    return how;
}
static bool prepare(Job& j)
{
    try { if (!j.rrt->setStart(sim::pick(j.pool))) return false; if (!j.m.grasp && !j.rrt->setGoal(sim::pick(j.pool))) return false; return true; }
    catch (const std::exception&) { return false; }        // no nodes left
}
static void history(Job& j, int rounds, bool faults, bool alone)
{
    VirtualRobot::PRNG64Bit().seed(sim::rnd());
    for (int r = 0; r < rounds; r++)
    {
        if (r == 0 || sim::chance(0.5)) prepare(j);
        const char* how = planOnce(j, faults, sim::chance(0.8));
        sim::nontrivial();
        if (alone) { sim::NoPreempt np; Snap a = Snap::of(*j.s, j.space); compareSpace(j, a, how); compareRobot(j, a, how); }
        else { sim::NoPreempt np; Snap a = Snap::of(*j.s, j.space); compareSpace(j, a, how); }
        if (alone && sim::chance(0.5)) locksFree(*j.s);
        if (sim::chance(0.3)) { j.rrt->reset(); j.hist += " reset"; }
    }
    // usable again: with all obstacles of the joint space gone the same planner finds a way
    if (j.s->boxPose.empty() && j.nodes >= 2500 && !j.m.grasp)
    {
        if (!j.m.bi && j.m.a != Rrt::eConnect && sim::chance(0.12))
        {   // a long hopeless planning: nothing but the start is valid
            j.rrt->reset(); j.rrt->setPlanningTimeout(1e9); bool ok = false;
            if (prepare(j)) { j.hook.dead = true; j.rrt->setMaxCycles(sim::rint(500, 2500)); try { ok = j.rrt->plan(true); } catch (const std::exception&) {} j.hook.dead = false; j.hist += " hopeless"; sim::probe("hopeless"); }
            if (ok) sim::violation("hopeless-success", "planning succeeds where nothing is valid (%s)", j.desc);
        }
        j.rrt->reset(); j.hook.forceFree = true; j.rrt->setMaxCycles(4000); j.rrt->setPlanningTimeout(1e9);
        Cfg s, g; { sim::NoPreempt np; int t = 0; do { s = j.s->random(); g = j.s->random(); } while (j.s->dist(s, g, true) < j.s->step && t++ < 100); }
        bool ok = false; std::string why = "reports failure";
        for (int k = 0; k < 6 && !ok; k++)       // the nodes may run out before the goal is tried
        {
            if (k) j.rrt->reset();
            if (!j.rrt->setStart(s) || !j.rrt->setGoal(g)) sim::violation("not-usable", "a planner refuses a free start or goal after:%s (%s)", j.hist.c_str(), j.desc);
            try { ok = j.rrt->plan(true); } catch (const std::exception& e) { why = std::string("throws ") + e.what(); }
        }
        if (!ok) sim::violation("not-usable", "a planner %s on a free problem after:%s (%s)", why.c_str(), j.hist.c_str(), j.desc);
        sim::probe("usable-again");
        if (sim::chance(0.5))
        {   // and once more, with everything as it is
            bool full = false; ok = false;
            try { ok = j.rrt->plan(true); } catch (const std::exception&) { full = true; }
            if (!ok && !full) sim::violation("not-usable", "a planner which has just solved a free problem fails when it is asked again, after:%s (%s)", j.hist.c_str(), j.desc);
            sim::probe(full ? "asked-again-full" : "asked-again");
        }
    }
}
// somebody else who works on the same robot in protected mode
static void otherUser(Problem& s, CSpaceSampledPtr c, Hook& h, int n, char* desc)
{
    for (int i = 0; i < n; i++)
    {
        Cfg q; bool want; { sim::NoPreempt np; q = s.random(); want = s.valid(q); }
        bool got = c->isConfigValid(q);
        if (got != want) sim::violation("other-user-misled", "another user of the robot is told that %s is %s (%s)", cstr(q).c_str(), got ? "valid" : "not valid", desc);
        sim::probe(got ? "other-valid" : "other-invalid");
        if (sim::chance(0.3)) sim::sleepNs(sim::rnd(200000));
    }
}
static void run()
{
    Problem s; bool multi = sim::chance(0.5), boxes = sim::chance(0.4);
    makeScene(s, boxes, !boxes || sim::chance(0.5));
    s.robot->setThreadsafe(true);
    bool upd = sim::chance(0.7); s.robot->setUpdateVisualization(upd);
    int nthreads = multi ? sim::rint(1, 3) : 1; bool faults = sim::chance(0.75);
    std::vector<std::unique_ptr<Job>> jobs;
    for (int i = 0; i < nthreads; i++)
    {
        jobs.emplace_back(new Job); Job& j = *jobs.back(); j.s = &s; j.hook.scene = &s; j.nodes = sim::chance(0.15) ? sim::rint(3, 60) : 2500;
        j.space = makeSpace(s, &j.hook, j.nodes); if (multi || sim::chance(0.3)) j.space->exclusiveRobotAccess(true);
        j.m = randomModes(s);
        if (!multi && sim::chance(0.25)) { j.m.grasp = j.m.bi = true; j.rrt = makeGraspPlanner(j.m, j.space, s, &j.hook, j.ik); } else j.rrt = makePlanner(j.m, j.space);
        j.hook.planner = j.rrt.get(); Cfg c; for (int k = 0; k < 4; k++) if (s.randomValid(c)) j.pool.push_back(c);
        snprintf(j.desc, sizeof j.desc, "%s, robot %d, %zu balls, %zu boxes, %s, %u nodes", modeStr(j.m).c_str(), s.model, s.balls.size(), s.boxPose.size(), multi ? "shared robot" : "alone", j.nodes);
        j.before = Snap::of(s, j.space);
        if (j.pool.empty()) return;
    }
    sim::setStepLimit(1500000000ULL, "planning");
    if (!multi) history(*jobs[0], sim::rint(1, 4), faults, true);
    else
    {
        for (auto& j : jobs) { Job* p = j.get(); int r = sim::rint(1, 2); sim::spawn([p, r, faults] { history(*p, r, faults, false); }, "planner"); }
        Hook oh; oh.scene = &s; CSpaceSampledPtr oc = makeSpace(s, &oh, 100); oc->exclusiveRobotAccess(true); int n = sim::rint(2, 12); char* d = jobs[0]->desc; Problem* sp = &s; Hook* hp = &oh;
        sim::spawn([sp, oc, hp, n, d] { otherUser(*sp, oc, *hp, n, d); }, "other-user");
        sim::joinAll();
        for (auto& j : jobs) { Snap a = Snap::of(s, j->space); compareSpace(*j, a, j->hist.c_str()); compareRobot(*j, a, j->hist.c_str()); }
        otherUser(s, oc, oh, 3, d);
    }
    locksFree(s);
    sim::clearStepLimit();
    bool after = s.robot->getUpdateVisualizationStatus();
    for (auto& j : jobs) { sim::sample("%s:%s", j->desc, j->hist.c_str()); for (char c : j->hist) sim::eventf(c); }
    jobs.clear();
    if (s.robot->getUpdateVisualizationStatus() != after) sim::violation("visualization-status", "destroying planners changed the robot's update-visualization status");
    s.robot->setUpdateVisualization(true); s.robot->setThreadsafe(false);
}
sim::Harness sim::harness = {"C06", setup, run};
