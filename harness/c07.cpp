// C07: planners and the path optimisation end within bounded work after their limits, and report no time that did not pass.
#include "plan.h"
#include <MotionPlanning/PostProcessing/ShortcutProcessor.h>
using namespace plan;
static void setup() { setupModels(); }

struct Job
{
    Problem s; Hook hook; CSpaceSampledPtr space; boost::shared_ptr<Rrt> rrt; StubIkPtr ik; Modes m; char desc[240]; std::string hist;
    double bound;          // checks one cycle may need
    // observations of the current call
    uint64_t t0 = 0, lastT = 0, stopT = 0; double T = 0; unsigned maxC = 0, lastCycle = 0; long checksAfterLimit = 0, afterStop = 0; bool stopped = false, inPlan = false;
    bool goOn = false; uint64_t first = 0; double since(uint64_t t) const { return first && t > first ? (t - first) / 1e6 : 0; }
    double ms(uint64_t t) const { return (t - t0) / 1e6; }
    // called at every validity check, before (in) and after the time it takes
    void in()
    {
        if (!inPlan) return;
        if (!first) first = sim::now();       // the planner's clock was started before
        unsigned c = rrt->getNrOfCycles();
        if (c >= maxC) sim::violation("cycle-limit", "work goes on in cycle %u, the limit is %u (%s)", c, maxC, desc);
        if (c != lastCycle)
        {
            if (since(lastT) > T + 1.001) sim::violation("timeout-ignored", "cycle %u is started although %g ms had passed in the cycle before, the budget is %g ms (%s)", c, since(lastT), T, desc);
            if (stopped && c > stopCycle) sim::violation("stop-ignored", "cycle %u is started after a stop request in cycle %u (%s)", c, stopCycle, desc);
            lastCycle = c;
        }
        if (since(sim::now()) > T + 1.001 && ++checksAfterLimit > bound) sim::violation("timeout-ignored", "%ld checks after the budget of %g ms had passed, one cycle needs at most %g (%s)", checksAfterLimit, T, bound, desc);
        if (stopped && ++afterStop > bound) sim::violation("stop-ignored", "%ld checks after the stop request, one cycle needs at most %g (%s)", afterStop, bound, desc);
    }
    unsigned stopCycle = 0; std::shared_ptr<bool> running;
    void endPlan() { inPlan = false; if (running) *running = false; }
    void out() { lastT = sim::now(); }
};
static void one(Job& j, const std::vector<Cfg>& pool, bool multi)
{
    if (j.goOn && sim::chance(0.5)) sim::probe("planned-on");       // plan() once more, with the trees as they are
    else
    {
        j.goOn = false; j.rrt->reset();
        bool st = j.rrt->setStart(pool[0]), gl = j.m.grasp || j.rrt->setGoal(pool[1]);
        if (!st || !gl) return;
    }
    if (sim::chance(0.3)) sim::sleepNs((uint64_t)std::exp(sim::rreal(std::log(1e4), std::log(2e8))));
    bool dead = sim::chance(0.15), timed = sim::chance(dead ? 0.7 : 0.5);
    j.maxC = (unsigned)sim::pick(*new std::vector<int>{1, 2, 5, 20, 60, 200}); j.T = timed ? (sim::chance(0.15) ? sim::rint(0, 1) : sim::rreal(0, sim::chance(0.5) ? 4 : 40)) : 1e9;
    j.rrt->setMaxCycles(j.maxC); j.rrt->setPlanningTimeout(j.T);
    j.hook.disarm(); j.hook.arm(); j.hook.dead = dead;
    double slow = dead ? 1 : sim::pick(*new std::vector<double>{0, 0.05, 0.3, 1}); uint64_t ns = (uint64_t)std::exp(sim::rreal(std::log(2e4), std::log(2e6)));
    long stopAt = !multi && sim::chance(0.25) ? (long)std::exp(sim::rreal(0, 6)) : -1;
    bool stopThread = (dead && !timed && stopAt < 0) || sim::chance(0.2);
    long n = 0; Job* jp = &j;
    j.checksAfterLimit = j.afterStop = 0; j.stopped = false; j.lastCycle = 0;
    j.hook.onCheck = [&, jp]
    {
        jp->in();
        if (++n == stopAt && !jp->stopped) { sim::fault::note("stop-request"); jp->stopped = true; jp->stopCycle = jp->rrt->getNrOfCycles(); jp->rrt->stopExecution(); }
        if (slow > 0 && sim::chance(slow)) { sim::fault::note("slow-check"); sim::sleepNs(sim::rnd(2 * ns) + 1); }
        jp->out();
    };
    bool ok = false; auto running = j.running = std::make_shared<bool>(true); j.t0 = j.lastT = sim::now(); j.first = 0; j.inPlan = true;
    if (stopThread) j.rrt->prepareExecution();      // otherwise a request before the planner got going is not considered
    if (stopThread)
    {
        uint64_t d = (uint64_t)std::exp(sim::rreal(std::log(1e4), std::log(5e7))); auto run = running;
        sim::spawn([jp, d, run] { sim::sleepNs(d); sim::NoPreempt np; if (!*run) return; sim::fault::note("stop-from-thread"); jp->rrt->stopExecution(); jp->stopped = true; jp->stopCycle = jp->rrt->getNrOfCycles(); }, "stopper");
    }
    ok = j.rrt->plan(sim::chance(0.9));
    uint64_t t1; { sim::NoPreempt np; *running = false; t1 = sim::now(); j.inPlan = false; }
    j.hook.disarm(); j.hook.dead = false;
    double el = j.ms(t1); unsigned c = j.rrt->getNrOfCycles(); double rep = j.rrt->getPlanningTimeMS();
    if (c > j.maxC) sim::violation("cycle-limit", "%u cycles with a limit of %u (%s)", c, j.maxC, j.desc);
    if (!(rep >= 0) || rep > el + 0.01) sim::violation("reported-time", "a planning time of %g ms is reported, %g ms have passed (%s)", rep, el, j.desc);
    if (!ok && !j.stopped && c < j.maxC && !(el > j.T)) sim::violation("gave-up", "planning gave up after %u of %u cycles and %g of %g ms without a stop request (%s)", c, j.maxC, el, j.T, j.desc);
    if (!ok && !j.stopped && c < j.maxC && rep < j.T - 0.01) sim::violation("reported-time", "a run which ended by timeout (%g ms) reports %g ms (%s)", j.T, rep, j.desc);
    const char* how = ok ? "solved" : j.stopped ? "stopped" : c >= j.maxC ? "cycle limit" : "timeout"; sim::probe(how); j.hist += std::string(" ") + how; sim::eventf(c); sim::eventf(rep);
    if (!ok) sim::nontrivial();
    j.goOn = true;
    if (!ok || multi) { if (!multi) sim::joinAll(); return; }
    sim::joinAll();
    // post-processing with a number of rounds and a stop request
    CSpacePathPtr path = j.rrt->getSolution();
    if (!path || path->getNrOfPoints() < 3) return;
    ShortcutProcessor sp(path, j.space); int rounds = (int)std::exp(sim::rreal(0, 5)); long checks = 0, after = 0; long at = sim::chance(0.6) ? (long)std::exp(sim::rreal(0, 7)) : -1; bool stopped = false;
    double perRound = j.bound;
    j.hook.onCheck = [&]
    {
        checks++;
        if (stopped && ++after > perRound) sim::violation("processing-stop-ignored", "%ld checks after the stop request, one round needs at most %g (%s)", after, perRound, j.desc);
        if (checks == at) { sim::fault::note("stop-request"); stopped = true; sp.stopExecution(); }
        if (checks > perRound * rounds) sim::violation("processing-rounds", "%ld checks in %d rounds, a round needs at most %g (%s)", checks, rounds, perRound, j.desc);
    };
    sp.optimize(rounds);
    j.hook.disarm(); sim::probe(stopped ? "processing-stopped" : "processing-finished");
}
static void init(Job& j, int model, bool boxes, bool multi)
{
    makeScene(j.s, boxes, true, model); j.hook.scene = &j.s;
    j.space = makeSpace(j.s, &j.hook, 6000); j.m = randomModes(j.s);
    if (!multi && sim::chance(0.2)) { j.m.grasp = j.m.bi = true; j.rrt = makeGraspPlanner(j.m, j.space, j.s, &j.hook, j.ik); } else j.rrt = makePlanner(j.m, j.space);
    j.hook.planner = j.rrt.get();
    double d = 0; for (unsigned i = 0; i < j.s.dim; i++) { double x = (j.s.hi[i] - j.s.lo[i]) * (j.s.weighted ? j.s.weights[i] : 1); d += x * x; } d = std::sqrt(d);
    j.bound = 2 * (2 * d / j.s.dcd + 6) + 6;
    snprintf(j.desc, sizeof j.desc, "%s, robot %d, %zu balls, %zu boxes%s", modeStr(j.m).c_str(), j.s.model, j.s.balls.size(), j.s.boxPose.size(), multi ? ", other planners at work" : "");
}
static void history(Job& j, int rounds, bool multi)
{
    VirtualRobot::PRNG64Bit().seed(sim::rnd());
    std::vector<Cfg> pool(2); { sim::NoPreempt np; if (!j.s.randomValid(pool[0]) || !j.s.randomValid(pool[1])) return; if (j.s.dist(pool[0], pool[1], false) < 0.01) return; }
    for (int i = 0; i < rounds; i++)
    {
        try { one(j, pool, multi); }
        catch (const std::exception& e)
        {
            bool in = j.inPlan; j.endPlan(); j.goOn = false; double el = j.ms(sim::now()), rep = j.rrt->getPlanningTimeMS();
            if (in && (!(rep >= 0) || rep > el + 0.01)) sim::violation("reported-time", "a planning time of %g ms is reported for a run which ended with an exception after %g ms (%s)", rep, el, j.desc); j.hook.disarm(); j.hook.dead = false; sim::probe("nodes-exhausted"); if (!multi) sim::joinAll(); }
    }
}
static void run()
{
    bool multi = sim::chance(0.3); int k = multi ? sim::rint(2, 3) : 1, first = sim::rnd(4);
    std::vector<std::unique_ptr<Job>> jobs;
    for (int i = 0; i < k; i++) { jobs.emplace_back(new Job); init(*jobs.back(), (first + i) % 4, !multi && sim::chance(0.2), multi); }
    sim::opts().clockJumps = sim::chance(0.5);
    sim::setStepLimit(2000000000ULL, "planning within its limits");
    if (!multi) history(*jobs[0], sim::rint(1, 4), false);
    else { for (auto& j : jobs) { Job* p = j.get(); int r = sim::rint(1, 2); sim::spawn([p, r] { history(*p, r, true); }, "planner"); } sim::joinAll(); }
    sim::clearStepLimit();
    for (auto& j : jobs) sim::sample("%s:%s", j->desc, j->hist.c_str());
}
sim::Harness sim::harness = {"C07", setup, run};
