// C05: results of the planners are real, valid, connected paths; failed runs hand out nothing.
#include "plan.h"
using namespace plan;
static void setup() { setupModels(); }

struct Job
{
    Problem* s; Hook hook; CSpaceSampledPtr space; boost::shared_ptr<Rrt> rrt; StubIkPtr ik; Modes m; unsigned nodes; char desc[300];
    Cfg start, goal; bool haveStart = false, haveGoal = false;
    struct Res { std::vector<Cfg> path; Cfg start, goal; bool ok; };
    std::vector<Res> results; std::vector<std::string> hist;
    bool alone = false;
};
static bool setS(Job& j, const Cfg& c) { bool ok = j.rrt->setStart(c); j.start = c; j.haveStart = ok; return ok; }
static bool setG(Job& j, const Cfg& c) { if (j.m.grasp) { j.haveGoal = true; return true; } bool ok = j.rrt->setGoal(c); j.goal = c; j.haveGoal = ok; return ok; }

static void judgeAll(Job& j)
{
    const Problem& s = *j.s;
    for (auto& r : j.results)
    {
        judge(s, r.path, r.start, r.goal, tolRun(s, j.m.connectOnly()), maxStep(s), j.desc);
        sim::event("points", r.path.size()); for (auto& q : r.path) sim::eventf(q[0]);
        sim::probe("paths"); sim::probe("points", r.path.size());
    }
    j.results.clear();
}
// Between two plannings the world is another one: obstacles moved, other resolution, narrower limits
static void changeWorld(Job& j, std::vector<Cfg>& pool)
{
    Problem& s = *j.s; Cfg c;
    {
        sim::NoPreempt np;
        judgeAll(j);
        int k = sim::rint(0, 3);
        if (k <= 1 && !s.boxPose.empty())
        {
            int b = sim::rnd(s.boxPose.size()); Eigen::Matrix4f p = s.boxPose[b]; double a = sim::rreal(-3, 3), r = sim::rreal(110, 300); p(0, 3) = r * cos(a); p(1, 3) = r * sin(a);
            s.boxPose[b] = p; s.obst->getSceneObject(b)->setGlobalPose(p); s.refObst->getSceneObject(b)->setGlobalPose(p);
        }
        else if (k == 2) { s.dcd *= sim::rreal(0.5, 1.4); s.step = s.dcd * sim::rreal(1.06, 4.0); j.space->setSamplingSizeDCD(s.dcd); j.space->setSamplingSize(s.step); }
        else { int i = sim::rnd(s.dim); if (!s.wrap[i]) { float w = s.hi[i] - s.lo[i]; s.lo[i] += w * sim::rreal(0, 0.25); s.hi[i] -= w * sim::rreal(0, 0.25); j.space->setBoundary(i, s.lo[i], s.hi[i]); } else if (!s.balls.empty()) s.balls[sim::rnd(s.balls.size())].c = s.random(); }
        pool.clear(); for (int i = 0; i < 4; i++) if (s.randomValid(c)) pool.push_back(c);
        if (j.ik) { j.ik->pool = pool; }
    }
    if (j.m.grasp || j.nodes < 1000 || sim::chance(0.4)) { j.rrt->reset(); j.haveStart = j.haveGoal = false; } j.hist.push_back(" world"); sim::probe("world-changed");
}
static void history(Job& j, int rounds, bool faults)
{
    VirtualRobot::PRNG64Bit().seed(sim::rnd());
    Cfg c;
    std::vector<Cfg> pool;
    { sim::NoPreempt np; for (int i = 0; i < 4; i++) if (j.s->randomValid(c)) pool.push_back(c); }
    if (pool.size() < 2) return;
    std::string note;
    for (int r = 0; r < rounds; r++)
    {
        bool fresh = r == 0;
        bool again = false;
        if (r && j.alone && sim::chance(0.35))
        {
            Cfg was = pool[sim::rnd(pool.size())];
            try { if (sim::chance(0.5)) { if (!j.m.grasp && sim::chance(0.3)) setG(j, was); else setS(j, was); } changeWorld(j, pool); }
            catch (const std::exception&) { j.rrt->reset(); j.haveStart = j.haveGoal = false; changeWorld(j, pool); }
            fresh = true; if (pool.size() < 2) return;
            if (sim::chance(0.5)) { again = true; c = was; }
        }
        try
        {
            if (again)
            {   // a configuration that was fine in the world as it was
                bool bad; { sim::NoPreempt np; bad = j.s->collides(c); for (unsigned i = 0; i < j.s->dim; i++) bad |= c[i] < j.s->lo[i] || c[i] > j.s->hi[i]; }
                bool ok = setS(j, c); j.hist.push_back(ok ? " start-again" : " start-again-refused"); sim::probe(bad ? "start-invalid-now" : "start-again");
                if (ok && bad) sim::violation("invalid-start-accepted", "a start that is not valid any more, %s, was accepted (%s)", cstr(c).c_str(), j.desc);
                if (!ok || !j.s->valid(c)) { c = pool[sim::rnd(pool.size())]; setS(j, c); }
            }
            else if (fresh || sim::chance(0.6)) { c = pool[sim::rnd(pool.size())]; note = setS(j, c) ? " start" : " start-refused"; j.hist.push_back(note); }
            bool badGoal = false; if (!j.m.grasp && sim::chance(0.1)) { badGoal = true; bool bad; Cfg x; { sim::NoPreempt np; x = j.s->random(); bad = j.s->collides(x); } if (bad) { if (!j.m.grasp && setG(j, x)) sim::violation("invalid-goal-accepted", "an invalid goal %s was accepted (%s)", cstr(x).c_str(), j.desc); j.hist.push_back(" bad-goal"); } }
            if (badGoal ? fresh : fresh || sim::chance(0.6)) { Cfg g; int t = 0; do g = pool[sim::rnd(pool.size())]; while (j.haveStart && j.s->dist(g, j.start, false) < 1e-3 && t++ < 20); setG(j, g); j.hist.push_back(" goal"); }
        }
        catch (const std::exception& e)
        {   // the space has no nodes left
            j.hist.push_back(" set-threw"); j.rrt->reset(); j.haveStart = j.haveGoal = false; continue;
        }
        if (!j.m.grasp && j.haveStart && j.haveGoal && j.s->dist(j.start, j.goal, false) < 1e-3) continue;
        j.rrt->setMaxCycles(sim::pick(*new std::vector<int>{1, 3, 10, 40, 40, 120}));
        j.rrt->setPlanningTimeout(sim::chance(0.15) ? sim::rreal(0, 3) : 1e9);
        j.hook.disarm(); j.hook.arm();
        if (faults)
        {
            int k = sim::rint(0, 5); long at = (long)std::exp(sim::rreal(0, 6));
            if (k == 0) j.hook.stopAt = at; else if (k == 1) { j.hook.throwAt = at; j.hook.oom = sim::chance(0.3); } else if (k == 2) { j.hook.slowP = 0.05; j.hook.slowNs = 300000; }
        }
        bool oomPlan = faults && sim::chance(0.08);
        if (oomPlan) sim::mem::failNew((long)std::exp(sim::rreal(0, 8)), false, 0);
        bool ok = false, threw = false;
        try { ok = j.rrt->plan(true); }
        catch (const std::exception& e) { threw = true; }
        sim::mem::off();
        j.hist.push_back(threw ? " plan-threw" : ok ? " plan-ok" : " plan-failed");
        j.hook.disarm();
        CSpacePathPtr sol = j.rrt->getSolution();
        Job::Res res; res.ok = ok;
        if (ok)
        {
            if (!j.haveStart || !(j.haveGoal || j.m.grasp)) sim::violation("planned-without-problem", "success without a valid start and goal (%s)", j.desc);
            if (!sol) sim::violation("no-solution", "planning reports success but there is no solution (%s)", j.desc);
            res.path = sol->getPoints(); res.start = j.start; res.goal = j.goal;
            if (j.m.grasp) { double best = 1e9; for (auto& g : j.ik->given) if (!res.path.empty() && j.s->dist(g, res.path.back(), false) < best) { best = j.s->dist(g, res.path.back(), false); res.goal = g; } }
            j.results.push_back(res);
            sim::probe(j.m.grasp ? "solved-grasp" : j.m.bi ? "solved-bi" : "solved-uni"); if (j.m.connectOnly()) sim::probe("solved-connect");
            if (res.path.size() > 3) sim::nontrivial();
        }
        else
        {
            if (sol) sim::violation("stale-solution", "planning failed (%s) but a path with %u points is handed out (%s)", threw ? "exception" : "reported", sol->getNrOfPoints(), j.desc);
            sim::probe(threw ? "failed-exception" : j.hook.stopFired ? "failed-stopped" : "failed");
        }
        if (threw || sim::chance(0.25))
        {
            j.rrt->reset(); j.haveStart = j.haveGoal = false; j.hist.push_back(" reset");
            if (j.rrt->getSolution()) sim::violation("stale-solution", "after a reset the old solution is still handed out (%s)", j.desc);
            if (threw || sim::chance(0.5)) { try { setS(j, pool[0]); setG(j, pool[1]); } catch (const std::exception&) { return; } }
        }
    }
}
static void run()
{
    Problem s; int kind = sim::rint(0, 9);        // 0-3 alone, 4-6 shared robot protected, 7-9 private copies... of the space only
    bool multi = kind >= 4; bool boxes = sim::chance(multi ? 0.6 : 0.35), balls = !boxes || sim::chance(0.6);
    makeScene(s, boxes, balls);
    int nthreads = multi ? sim::rint(2, 3) : 1;
    if (sim::chance(0.15)) for (unsigned i = 0; i < s.dim; i++) if (!s.wrap[i]) { float w = s.hi[i] - s.lo[i]; s.lo[i] += w * sim::rreal(0, 0.2); s.hi[i] -= w * sim::rreal(0, 0.2); }
    bool upd = sim::chance(0.5); s.robot->setUpdateVisualization(upd);
    std::vector<std::unique_ptr<Job>> jobs;
    for (int i = 0; i < nthreads; i++)
    {
        jobs.emplace_back(new Job); Job& j = *jobs.back(); j.s = &s; j.hook.scene = &s;
        j.nodes = sim::chance(0.12) ? sim::rint(3, 60) : 2500;
        j.space = makeSpace(s, &j.hook, j.nodes); j.alone = !multi; for (unsigned d = 0; d < s.dim; d++) if (!s.wrap[d]) j.space->setBoundary(d, s.lo[d], s.hi[d]); if (multi) j.space->exclusiveRobotAccess(true);
        j.m = randomModes(s); if (!multi && sim::chance(0.25)) { j.m.grasp = j.m.bi = true; j.m.a = j.m.b = Rrt::eConnect; j.rrt = makeGraspPlanner(j.m, j.space, s, &j.hook, j.ik); } else j.rrt = makePlanner(j.m, j.space); j.hook.planner = j.rrt.get();
        snprintf(j.desc, sizeof j.desc, "%s, robot %d, %zu balls, %zu boxes, %s, resolution %.3f/%.3f, %u nodes", modeStr(j.m).c_str(), s.model, s.balls.size(), s.boxPose.size(), multi ? "shared robot" : "alone", s.dcd, s.step, j.nodes);
    }
    sim::setStepLimit(1500000000ULL, "planning");
    bool faults = sim::chance(0.6);
    if (!multi) history(*jobs[0], sim::rint(1, 4), faults);
    else { for (auto& j : jobs) { Job* p = j.get(); int r = sim::rint(1, 2); sim::spawn([p, r, faults] { history(*p, r, faults); }, "planner"); } sim::joinAll(); }
    sim::clearStepLimit();
    sim::NoPreempt np;
    for (auto& jp : jobs)
    {
        Job& j = *jp; std::string h; for (auto& x : j.hist) h += x; sim::sample("%s:%s", j.desc, h.c_str());
        judgeAll(j);
    }
}
sim::Harness sim::harness = {"C05", setup, run};
