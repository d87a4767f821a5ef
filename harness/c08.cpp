// C08: shortcutting turns valid paths into valid paths which are not longer, whenever it is cut short.
#include "plan.h"
#include <MotionPlanning/PostProcessing/ShortcutProcessor.h>
using namespace plan;
static void setup() { setupModels(); }

struct Job
{
    Problem* s; Hook hook; CSpaceSampledPtr space; CSpacePathPtr in; std::vector<Cfg> copy; char desc[300]; std::string hist;
    boost::shared_ptr<ShortcutProcessor> sp;
    struct Out { std::vector<Cfg> p; const char* how; bool exact; }; std::vector<Out> outs;
};
static double length(const Problem& s, const std::vector<Cfg>& p) { double l = 0; for (size_t i = 0; i + 1 < p.size(); i++) l += s.dist(p[i], p[i + 1], false); return l; }
// a valid path through random configurations, built from edges the space itself accepts
static bool makeInput(Job& j)
{
    Problem& s = *j.s; Cfg c; if (!s.randomValid(c)) return false;
    j.in.reset(new CSpacePath(j.space)); std::vector<Cfg> p; p.push_back(c); int legs = sim::rint(0, 9);
    bool local = sim::chance(0.5);
    for (int l = 0, t = 0; l < legs && t < 200; t++)
    {
        Cfg d = s.random(); if (local) { double f = sim::rreal(0.02, 0.3); for (unsigned i = 0; i < s.dim; i++) d[i] = std::min(s.hi[i], std::max(s.lo[i], (float)(p.back()[i] + (d[i] - p.back()[i]) * f))); }
        if (s.dist(d, p.back(), true) < 0.01 || !s.valid(d) || !j.space->isPathValid(p.back(), d)) continue;
        CSpacePathPtr e = sim::chance(0.85) ? j.space->createPath(p.back(), d) : CSpacePathPtr();
        if (e) for (unsigned i = 1; i < e->getNrOfPoints(); i++) p.push_back(e->getPoint(i)); else p.push_back(d);
        l++;
        if (p.size() > 120) break;
    }
    for (auto& q : p) j.in->addPoint(q);
    j.copy = p; return true;
}
static void take(Job& j, CSpacePathPtr r, const char* how, bool exact)
{
    if (r == j.in) sim::violation("input-returned", "the input path object itself is handed out as the optimised path (%s)", j.desc);
    if (r) j.outs.push_back({r->getPoints(), how, exact});
    const std::vector<Cfg> now = j.in->getPoints(); bool same = now.size() == j.copy.size();
    for (size_t i = 0; same && i < now.size(); i++) same = now[i] == j.copy[i];
    if (!same) sim::violation("input-changed", "the input path was changed %s (%s)", how, j.desc);
}
static void process(Job& j, bool faults)
{
    int times = sim::rint(1, 3);
    for (int k = 0; k < times; k++)
    {
        if (!j.sp || sim::chance(0.4)) j.sp.reset(new ShortcutProcessor(j.in, j.space, sim::chance(0.1)));
        ShortcutProcessor* sp = j.sp.get();
        long at = faults ? (long)std::exp(sim::rreal(0, 7)) : -1; int fk = sim::rint(0, 3); bool stopped = false, oom = false;
        j.hook.disarm(); j.hook.arm(); Job* jp = &j;
        if (faults && fk == 0) { j.hook.onCheck = [&stopped, at, jp, sp] { if (jp->hook.planChecks == at) { stopped = true; sim::fault::note("stop-request"); sp->stopExecution(); } }; }
        else if (faults && fk == 1) { j.hook.throwAt = at; j.hook.oom = sim::chance(0.3); }
        else if (faults && fk == 2) { oom = true; sim::mem::failNew((long)std::exp(sim::rreal(0, 8)), false, 0); }
        int rounds = (int)std::exp(sim::rreal(0, 5.5)), op = sim::rint(0, 5); CSpacePathPtr r; const char* how = "by shortcutting";
        try
        {
            if (op == 0) { sp->doPathPruning(); r = sp->getOptimizedPath(); how = "by pruning"; }
            else if (op == 1) { r = sp->shortenSolutionRandom(rounds, sim::rint(-1, 60)); }
            else r = sp->optimize(rounds);
            sim::mem::off();
            if (!r) sim::violation("no-result", "no path is handed out %s (%s)", how, j.desc);
            if (r != sp->getOptimizedPath()) sim::violation("other-result", "the returned path is not the one getOptimizedPath() hands out (%s)", j.desc);
            if (stopped) how = "by shortcutting which was stopped";
        }
        catch (const std::exception&) { sim::mem::off(); r = sp->getOptimizedPath(); how = "after an exception"; if (sim::chance(0.4)) j.sp.reset(); }
        sim::mem::off(); j.hook.disarm();
        sim::probe(how); j.hist += std::string(" ") + how; sim::NoPreempt np;
        take(j, r, how, op != 0); sim::nontrivial();
    }
}
static void judgeAll(Job& j)
{
    double tr = j.s->dcd * 1.01 + 1e-4, l0 = length(*j.s, j.copy);
    for (auto& o : j.outs)
    {
        char d[360]; snprintf(d, sizeof d, "%s, %zu points %s", j.desc, j.copy.size(), o.how);
        judge(*j.s, o.p, j.copy.front(), j.copy.back(), tr, 1e30, d);
        double l = length(*j.s, o.p);
        if (l > l0 * (1 + 1e-4) + 1e-4) sim::violation("longer", "the path of length %g became %g long (%s)", l0, l, d);
        if (l < l0 * 0.98) sim::probe("shortened"); else sim::probe("unchanged-length");
        sim::event("out", o.p.size()); sim::eventf(l);
    }
    if (j.outs.size()) sim::sample("%s, %zu points, length %g:%s", j.desc, j.copy.size(), l0, j.hist.c_str());
}
static void run()
{
    Problem s; bool multi = sim::chance(0.35), boxes = sim::chance(0.35);
    makeScene(s, boxes, !boxes || sim::chance(0.6)); int k = multi ? sim::rint(2, 3) : 1; bool faults = sim::chance(0.6);
    std::vector<std::unique_ptr<Job>> jobs;
    for (int i = 0; i < k; i++)
    {
        jobs.emplace_back(new Job); Job& j = *jobs.back(); j.s = &s; j.hook.scene = &s; j.space = makeSpace(s, &j.hook, 10); if (multi) j.space->exclusiveRobotAccess(true);
        snprintf(j.desc, sizeof j.desc, "robot %d, %zu balls, %zu boxes, %s, resolution %.3f/%.3f", s.model, s.balls.size(), s.boxPose.size(), multi ? "shared robot" : "alone", s.dcd, s.step);
        if (!makeInput(j)) return;
        judge(s, j.copy, j.copy.front(), j.copy.back(), s.dcd * 1.01 + 1e-4, 1e30, "input of the run");
        sim::probe("input-points", j.copy.size());
    }
    sim::setStepLimit(1500000000ULL, "path optimisation");
    if (!multi) process(*jobs[0], faults);
    else { for (auto& j : jobs) { Job* p = j.get(); sim::spawn([p, faults] { process(*p, faults); }, "processor"); } sim::joinAll(); }
    sim::clearStepLimit();
    sim::NoPreempt np; for (auto& j : jobs) judgeAll(*j);
}
sim::Harness sim::harness = {"C08", setup, run};
