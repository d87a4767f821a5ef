// C09: parallel workspace sampling accounts for every sample exactly once.
#include "common.h"
#include <VirtualRobot/Workspace/WorkspaceRepresentation.h>
#include <VirtualRobot/Workspace/Reachability.h>
#include <VirtualRobot/Workspace/Manipulability.h>
#include <VirtualRobot/IK/PoseQualityManipulability.h>
#include <VirtualRobot/IK/PoseQualityExtendedManipulability.h>
using namespace VirtualRobot; using namespace common;

static const int NR = 3;
static RobotPtr g_robot[NR], g_ref[NR];
static std::vector<std::pair<float, float>> g_limits[NR];
static void setup()
{
    sim::opts().maxGapLog2 = 13;
    for (int i = 0; i < NR; i++)
    {
        RobotSpec s; s.n = 2 + i; s.branchAt = i ? 0 : -1; s.meshes = true; s.type = "SimArm" + std::to_string(i);
        g_robot[i] = makeRobot(s); for (auto& n : g_robot[i]->getRobotNodeSet("Arm")->getAllRobotNodes()) g_limits[i].push_back({n->getJointLimitLo(), n->getJointLimitHi()});
        g_ref[i] = g_robot[i]->clone("ref", CollisionCheckerPtr(new CollisionChecker()));
    }
}
struct Sample { Eigen::Matrix4f pose; std::vector<float> q; float quality; };
static std::vector<Sample> samples; // in the order in which they were handed over

static long failAt = -1, failOom = -1; static bool fired;
// a fault inside one worker
static void fault() { if (failAt > 0 && --failAt == 0) { fired = true; sim::fault::note("worker-exception"); throw std::runtime_error("injected"); } }
// ---- the data of the map, which remembers the order of the additions
struct OrderedData : WorkspaceDataArray
{
    std::vector<std::array<float, 6>>& order;
    OrderedData(WorkspaceRepresentation& w, bool adjust, std::vector<std::array<float, 6>>& o) : WorkspaceDataArray(w.getNumVoxels(0), w.getNumVoxels(1), w.getNumVoxels(2), w.getNumVoxels(3), w.getNumVoxels(4), w.getNumVoxels(5), adjust), order(o) {}
    void increaseDatum(float x[], const WorkspaceRepresentation* w) override { WorkspaceDataArray::increaseDatum(x, w); sim::NoPreempt np; unsigned v[6]; if (w->getVoxelFromPose(x, v)) order.push_back({x[0], x[1], x[2], x[3], x[4], x[5]}); }
};
// ---- reachability: records every pose handed to the map
class ProbeReach : public Reachability
{
public:
    bool rec = true;
    ProbeReach(RobotPtr r) : Reachability(r) {}
    void addPose(const Eigen::Matrix4f& p) override
    {
        fault();
        bool oom = rec && failAt < 0 && --failOom == 0;
        if (oom) sim::mem::failNew(0);
        try { Reachability::addPose(p); } catch (...) { sim::mem::off(); fired = true; throw; }
        if (oom) sim::mem::off();
        if (rec) { sim::NoPreempt np; samples.push_back(Sample{p, {}, 0}); }
    }
    int loops() const { return buildUpLoops; }
    int collisions() const { return collisionConfigs; }
    float lo(int i) const { return achievedMinValues[i]; }
    float hi(int i) const { return achievedMaxValues[i]; }
    std::vector<std::array<float, 6>> order;
    void useOrdered(bool adjust) { data.reset(new OrderedData(*this, adjust, order)); }
    void fill(const std::vector<unsigned char>& f)          // what earlier additions left
    {
        size_t k = 0; unsigned n[6]; for (int i = 0; i < 6; i++) n[i] = numVoxels[i];
        for (unsigned a = 0; a < n[0]; a++) for (unsigned b = 0; b < n[1]; b++) for (unsigned c = 0; c < n[2]; c++) for (unsigned d = 0; d < n[3]; d++) for (unsigned e = 0; e < n[4]; e++) for (unsigned g = 0; g < n[5]; g++)
            if (unsigned char x = f[k++ % f.size()]) data->setDatum(a, b, c, d, e, g, x);
    }
};
// ---- manipulability: the quality measure records configuration and pose of each sample
class ProbeMeasure : public PoseQualityMeasurement
{
public:
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    RobotPtr rob; bool rec; bool hasObst = false; Eigen::Vector3f obst = Eigen::Vector3f::Zero(); std::vector<Sample> mine;
    ProbeMeasure(RobotNodeSetPtr rns, bool record) : PoseQualityMeasurement(rns), rob(rns->getRobot()), rec(record) { name = "probe"; }
    static float quality(RobotNodeSetPtr rns, bool hasObst, const Eigen::Vector3f& obst)
    {
        double h = 0; int i = 1;
        for (auto& n : rns->getAllRobotNodes()) { h += (0.3 * i + 0.1) * n->getJointValue() / (n->isTranslationalJoint() ? 200 : 1); i++; }
        double q = 0.5 + 0.45 * std::sin(h);
        if (hasObst) q *= 0.5 + 0.5 * std::exp(-obst.norm() / 100);
        return q;
    }
    float getPoseQuality() override
    {
        if (rec) fault();
        float f = quality(rns, hasObst, obst);
        if (rec)
        {
            Sample s; s.pose = rns->getTCP()->getGlobalPose(); s.quality = f;
            for (auto& n : rns->getAllRobotNodes()) s.q.push_back(n->getJointValue());
            sim::NoPreempt np; samples.push_back(s);
        }
        return f;
    }
    float getPoseQuality(const Eigen::VectorXf&) override { return getPoseQuality(); }
    void setObstacleDistanceVector(const Eigen::Vector3f& d) override { hasObst = true; obst = d; }
    PoseQualityMeasurementPtr clone(RobotPtr r) override
    { return PoseQualityMeasurementPtr(boost::shared_ptr<ProbeMeasure>(new ProbeMeasure(r->getRobotNodeSet(rns->getName()), rec))); }
};
class ProbeManip : public Manipulability
{
public:
    ProbeManip(RobotPtr r) : Manipulability(r) {}
    int loops() const { return buildUpLoops; }
    int collisions() const { return collisionConfigs; }
    float lo(int i) const { return achievedMinValues[i]; }
    float hi(int i) const { return achievedMaxValues[i]; }
    void add(const Eigen::Matrix4f& p, PoseQualityMeasurementPtr m) { addPose(p, m); }
};

template <class M> static void compare(M& map, M& ref, unsigned total, bool checkBounds, const char* desc)
{
    long filled = 0;
    for (int i = 0; i < 6 && checkBounds; i++)
        if (std::fabs(map.lo(i) - ref.lo(i)) > 1e-3 || std::fabs(map.hi(i) - ref.hi(i)) > 1e-3)
            sim::violation("extents", "achieved extents of dimension %d are [%g %g], the samples give [%g %g] (%s)", i, map.lo(i), map.hi(i), ref.lo(i), ref.hi(i), desc);
    for (int a = 0; a < map.getNumVoxels(0); a++) for (int b = 0; b < map.getNumVoxels(1); b++) for (int c = 0; c < map.getNumVoxels(2); c++)
    {
        if (!map.hasEntry(a, b, c) && !ref.hasEntry(a, b, c)) continue;
        for (int d = 0; d < map.getNumVoxels(3); d++) for (int e = 0; e < map.getNumVoxels(4); e++) for (int f = 0; f < map.getNumVoxels(5); f++)
        {
            int x = map.getVoxelEntry(a, b, c, d, e, f), y = ref.getVoxelEntry(a, b, c, d, e, f);
            if (x != y) sim::violation("entry-differs", "entry (%d %d %d %d %d %d) is %d, adding the same samples one by one gives %d (%s)", a, b, c, d, e, f, x, y, desc);
            if (x) filled++;
            sim::event(x);
        }
    }
    if (map.getMaxEntry() != ref.getMaxEntry()) sim::violation("max-entry", "maximum entry is %d, should be %d (%s)", map.getMaxEntry(), ref.getMaxEntry(), desc);
    if ((long)map.getData()->getVoxelFilledCount() != (long)ref.getData()->getVoxelFilledCount() || (long)map.getData()->getVoxelFilledCount() < filled)
        sim::violation("filled-count", "filled voxels counted: %ld, one by one: %ld, present: %ld (%s)", (long)map.getData()->getVoxelFilledCount(), (long)ref.getData()->getVoxelFilledCount(), filled, desc);
    sim::probe("filled-voxels", filled);
}

// restricts the joint limits so that the robot is nearly everywhere in collision: joint j moves from v[j] == edge + width (collision) to edge - width * free (collision free)
static bool collides(RobotPtr ref) { return ref->getCollisionChecker()->checkCollision(ref->getRobotNodeSet("Branch"), ref->getRobotNodeSet("ArmCol")); }
static bool makeCrowded(RobotPtr robot, RobotPtr ref, double freeShare)
{
    RobotNodeSetPtr arm = ref->getRobotNodeSet("Arm");
    for (int t = 0; t < 30; t++)
    {
        std::vector<float> v; for (auto& n : arm->getAllRobotNodes()) v.push_back(n->getJointLimitLo() + sim::runit() * (n->getJointLimitHi() - n->getJointLimitLo()));
        int j = sim::rint(1, (int)arm->getSize() - 1); RobotNodePtr n = arm->getNode(j); float lo = n->getJointLimitLo(), hi = n->getJointLimitHi();
        auto col = [&](double x) { v[j] = x; arm->setJointValues(v); return collides(ref); };
        double a = lo + 0.05 * (hi - lo) + sim::runit() * 0.4 * (hi - lo), d = (hi - lo) / 25; while (a < hi && (col(a) || !col(a + d))) a += d;
        if (a + d >= hi) continue;
        double f = a, c = a + d; for (int i = 0; i < 22; i++) { double m = 0.5 * (f + c); (col(m) ? c : f) = m; }
        double w = d * 0.5; bool ok = true; for (int i = 0; i <= 30; i++) if (!col(c + w * i / 30)) ok = false;
        if (!ok) continue;
        for (size_t i = 0; i < v.size(); i++) for (RobotPtr r : {robot, ref})
        {
            RobotNodePtr x = r->getRobotNodeSet("Arm")->getNode(i); if (i == (size_t)j) x->setJointLimits(freeShare > 0 ? f - w * freeShare : c, c + w); else x->setJointLimits(v[i], v[i]);
        }
        return true;
    }
    return false;
}
static void run()
{
    int k = sim::rnd(NR); RobotPtr robot = g_robot[k], ref = g_ref[k];
    for (size_t i = 0; i < g_limits[k].size(); i++) for (RobotPtr r : {robot, ref}) r->getRobotNodeSet("Arm")->getNode(i)->setJointLimits(g_limits[k][i].first, g_limits[k][i].second);
    bool manip = sim::chance(0.4), selfcol = k > 0 && sim::chance(0.5), selfdist = manip && k > 0 && sim::chance(0.5);
    if (selfdist) selfcol = true;   // closest points of bodies in collision are arbitrary
    bool crowded = k > 0 && sim::chance(0.04); if (crowded) selfcol = true;
    bool local = sim::chance(0.5), adjust = sim::chance(0.5);
    bool allocFault = sim::chance(0.15), createFault = sim::chance(0.1);
    Eigen::Matrix4f gp = sim::chance(0.5) ? randomPose(200) : Eigen::Matrix4f(Eigen::Matrix4f::Identity());
    robot->setGlobalPose(gp); ref->setGlobalPose(gp);
    std::vector<std::pair<std::string, float>> q0;
    for (auto& n : robot->getRobotNodes()) if (n->isRotationalJoint() || n->isTranslationalJoint())
    {
        float v = n->isTranslationalJoint() ? sim::rreal(-100, 100) : sim::rreal(-2, 2);
        n->setJointValue(v); ref->getRobotNode(n->getName())->setJointValue(v); q0.push_back(std::make_pair(n->getName(), v));
    }
    if (crowded) crowded = makeCrowded(robot, ref, sim::chance(0.2) ? 0 : std::exp(sim::rreal(-8.5, -5)));
    if (crowded) for (auto& q : q0) for (RobotPtr r : {robot, ref})
    {
        RobotNodePtr n = r->getRobotNode(q.first); q.second = std::min(n->getJointLimitHi(), std::max(n->getJointLimitLo(), q.second)); n->setJointValue(q.second);
    }
    bool upd = sim::chance(0.5); robot->setUpdateVisualization(upd);
    RobotNodeSetPtr arm = robot->getRobotNodeSet("Arm");
    SceneObjectSetPtr st, dy;
    if (selfcol) { st = robot->getRobotNodeSet("Branch"); dy = robot->getRobotNodeSet("ArmCol"); }
    float lo[6], hi[6];
    float ext = sim::chance(0.7) ? 1200 : 150;   // a small map: samples fall outside
    for (int i = 0; i < 3; i++) { lo[i] = -ext + (local ? 0 : gp(i, 3)); hi[i] = ext + (local ? 0 : gp(i, 3)); }
    for (int i = 3; i < 6; i++) { lo[i] = -M_PI; hi[i] = M_PI; }
    float vt = ext / sim::rint(1, 3), vr = sim::pick(*new std::vector<float>{3.2f, 2.1f, 6.3f});
    unsigned threads = sim::pick(*new std::vector<int>{1, 2, 2, 3, 3, 4, 6}), loops = sim::rint(0, 3) ? sim::rint(1, 14) : sim::rint(1, 3);
    if (crowded) loops = sim::rint(1, 6);
    bool zero = sim::chance(0.03); if (zero) threads = 0;
    RobotNodePtr base = local ? robot->getRobotNode("Base") : RobotNodePtr();
    bool twice = sim::chance(0.2);
    char desc[300]; snprintf(desc, sizeof desc, "%s, %u samples, %u threads, self-collision %d, self-distance %d, robot %d%s, %s", manip ? "manipulability" : "reachability", loops, threads, selfcol, selfdist, k, crowded ? ", crowded" : "", allocFault ? "worker fault" : createFault ? "thread creation fault" : "no fault");
    sim::sample("%s", desc);
    ProbeReach* re = nullptr; ProbeManip* ma = nullptr; boost::shared_ptr<WorkspaceRepresentation> holder;
    boost::shared_ptr<ProbeMeasure> measure;
    if (manip)
    {
        ma = new ProbeManip(robot); boost::shared_ptr<ProbeManip> h(ma); holder = h;
        measure.reset(new ProbeMeasure(arm, true)); ma->setManipulabilityMeasure(measure); ma->setMaxManipulability(1.1f);
        if (selfdist) ma->initSelfDistanceCheck(robot->getRobotNodeSet("Branch"), robot->getRobotNodeSet("ArmCol"));
    }
    else { re = new ProbeReach(robot); holder.reset(re); }
    holder->initialize(arm, vt, vr, lo, hi, st, dy, base, RobotNodePtr(), adjust);
    std::vector<unsigned char> pre;
    if (!manip && sim::chance(0.25)) { int n = sim::rint(1, 7); while (n--) pre.push_back(sim::chance(0.3) ? 0 : 255 - sim::rint(0, 3)); re->useOrdered(adjust); re->fill(pre); sim::probe("filled-before"); }
    sim::opts().createFailP = createFault ? 0.4 : 0;
    sim::setStepLimit(400000000, "parallel workspace sampling");
    bool threw = false;
    if (allocFault) { if (manip || sim::chance(0.6)) failAt = sim::rint(1, loops); else failOom = sim::rint(1, loops); }
    int calls = twice ? 2 : 1;
    for (int c = 0; c < calls && !threw; c++)
    {
        try { holder->addRandomTCPPoses(loops, threads, selfcol); }
        catch (const std::exception&) { threw = true; }
    }
    failAt = failOom = -1;
    sim::opts().createFailP = 0;
    sim::clearStepLimit();
    sim::NoPreempt np;
    if (sim::liveThreads() > 1) sim::violation("worker-left", "%d worker threads still run after the call returned (%s)", sim::liveThreads() - 1, desc);
    unsigned total = loops * calls;
    if (threads > 1 && loops > 1) sim::nontrivial();
    sim::probe(manip ? "manipulability" : "reachability"); if (threw) sim::probe("call-failed"); if (threads > loops) sim::probe("more-threads-than-samples");
    if (fired && !threw) sim::violation("failure-swallowed", "a worker failed but the call returned normally (%s)", desc);
    if (threw && !fired) sim::violation("unexpected-exception", "the call failed without a fault (%s)", desc);
    // the robot is as it was
    for (auto& p : q0) if (std::fabs(robot->getRobotNode(p.first)->getJointValue() - p.second) > 1e-5) sim::violation("robot-moved", "joint %s was %g and is %g after sampling (%s)", p.first.c_str(), p.second, robot->getRobotNode(p.first)->getJointValue(), desc);
    if (!near(robot->getGlobalPose(), gp, 1e-3)) sim::violation("robot-moved", "the global pose changed (%s)", desc);
    if (robot->getUpdateVisualizationStatus() != upd) sim::violation("robot-moved", "the visualisation setting changed (%s)", desc);
    int n = manip ? ma->loops() : re->loops();
    const long hits = manip ? ma->collisions() : re->collisions(), missing = (long)total - n;   // samples for which no collision free configuration was found (in 1000 trials)
    if (crowded) { sim::probe("crowded"); sim::probe("samples-not-found", threw ? 0 : missing); }
    if (!threw && (missing < 0 || (missing > 0 && !crowded))) sim::violation("sample-count", "%d samples accounted for, %u requested (%s)", n, total, desc);
    if (!threw && (hits < 1000 * missing || hits > 1000 * missing + 999 * n || (!selfcol && hits))) sim::violation("collision-count", "%ld colliding configurations counted, %ld samples were not found and %d found (%s)", hits, missing, n, desc);
    if (!threw && !manip && samples.size() != (size_t)n) sim::violation("sample-count", "%zu poses added, %d counted (%s)", samples.size(), n, desc);
    if (crowded && !manip)          // only one joint moves: the configuration follows from the pose
    {
        RobotNodeSetPtr a = ref->getRobotNodeSet("Arm"); RobotNodePtr j; for (auto& x : a->getAllRobotNodes()) { if (x->getJointLimitHi() > x->getJointLimitLo()) j = x; x->setJointValue(x->getJointLimitLo()); }
        Eigen::Matrix4f low = a->getTCP()->getGlobalPose(); float lo = j->getJointLimitLo(), hi = j->getJointLimitHi(), eps = j->isTranslationalJoint() ? 0.05f : 2e-3f;
        for (auto& s : samples)
        {
            Eigen::Matrix4f d = low.inverse() * s.pose; float q = lo + (j->isTranslationalJoint() ? d.block<3, 1>(0, 3).norm() : std::fabs(Eigen::AngleAxisf(Eigen::Matrix3f(d.block<3, 3>(0, 0))).angle()));
            j->setJointValue(std::min(hi, q)); if (!near(a->getTCP()->getGlobalPose(), s.pose, 1)) sim::violation("sample-pose", "a pose was added that no allowed configuration has (%s)", desc);
            bool all = true; for (float x : {q - eps, q, q + eps}) { j->setJointValue(std::min(hi, std::max(lo, x))); all = all && x > lo && collides(ref); }
            if (all) sim::violation("sample-in-collision", "a sample in self-collision was added (%s)", desc);
            sim::probe("crowded-samples-found");
        }
    }
    // the same samples, one after the other, in a map of its own
    RobotNodeSetPtr rarm = ref->getRobotNodeSet("Arm"); RobotNodePtr rbase = local ? ref->getRobotNode("Base") : RobotNodePtr();
    if (!manip)
    {
        ProbeReach m(ref); m.rec = false;
        m.initialize(rarm, vt, vr, lo, hi, SceneObjectSetPtr(), SceneObjectSetPtr(), rbase, RobotNodePtr(), adjust);
        unsigned in = 0, sum = 0; unsigned v[6];
        if (pre.size()) m.fill(pre);
        if (pre.size() && adjust)
        {   // halving all entries makes the order matter: that of the map
            for (auto& s : samples) if (m.getVoxelFromPose(s.pose, v)) in++;
            if (re->order.size() != in) { sim::probe("order-unknown"); samples.clear(); return; }
            for (auto& o : re->order) m.getData()->increaseDatum(o.data(), &m);
            compare(*re, m, total, false, desc); samples.clear(); return;
        }
        for (auto& s : samples) { m.Reachability::addPose(s.pose); if (m.getVoxelFromPose(s.pose, v)) in++; }
        if (n != (int)samples.size()) sim::violation("sample-count", "%d samples accounted for, %zu added (%s)", n, samples.size(), desc);
        compare(*re, m, total, !threw, desc);
        for (int a = 0; a < re->getNumVoxels(0); a++) for (int b = 0; b < re->getNumVoxels(1); b++) for (int c = 0; c < re->getNumVoxels(2); c++) if (re->hasEntry(a, b, c))
            for (int d = 0; d < re->getNumVoxels(3); d++) for (int e = 0; e < re->getNumVoxels(4); e++) for (int f = 0; f < re->getNumVoxels(5); f++) sum += re->getVoxelEntry(a, b, c, d, e, f);
        if (sum != in && !pre.size()) sim::violation("sum", "the entries sum up to %u, %u samples lie inside the map (%s)", sum, in, desc);
        sim::probe("samples-inside", in); sim::probe("samples-outside", samples.size() - in);
    }
    else if (!threw)
    {
        ProbeManip m(ref); boost::shared_ptr<ProbeMeasure> me(new ProbeMeasure(rarm, false));
        m.setManipulabilityMeasure(me); m.setMaxManipulability(1.1f);
        if (selfdist) m.initSelfDistanceCheck(ref->getRobotNodeSet("Branch"), ref->getRobotNodeSet("ArmCol"));
        m.initialize(rarm, vt, vr, lo, hi, SceneObjectSetPtr(), SceneObjectSetPtr(), rbase, RobotNodePtr(), adjust);
        for (auto& s : samples)
        {
            for (size_t i = 0; i < s.q.size(); i++) rarm->getNode(i)->setJointValueNoUpdate(s.q[i]);
            ref->applyJointValues();
            if (!near(rarm->getTCP()->getGlobalPose(), s.pose, 5e-2)) sim::violation("sample-pose", "a sample was evaluated at a pose its configuration does not have on this robot (%s)", desc);
            me->hasObst = false;
            m.add(s.pose, me);
        }
        if (m.loops() > n) sim::violation("sample-count", "%d samples accounted for, %d evaluated (%s)", n, m.loops(), desc);
        compare(*ma, m, total, (int)samples.size() == n, desc);
        sim::probe("samples-inside", samples.size()); sim::probe("samples-outside", n - (int)samples.size());
    }
    if (selfcol) for (auto& s : samples) if (s.q.size())
    {
        for (size_t i = 0; i < s.q.size(); i++) rarm->getNode(i)->setJointValueNoUpdate(s.q[i]);
        ref->applyJointValues();
        if (ref->getCollisionChecker()->checkCollision(ref->getRobotNodeSet("Branch"), ref->getRobotNodeSet("ArmCol"))) sim::violation("sample-in-collision", "a sample in self-collision was added (%s)", desc);
    }
    sim::probe("collision-configs", manip ? ma->collisions() : re->collisions());
    sim::event("loops", n);
}
sim::Harness sim::harness = {"C09", setup, run};
