// C18: inverse kinematics with random restarts reports only real solutions.
#include "common.h"
#include <VirtualRobot/EndEffector/EndEffector.h>
#include <VirtualRobot/Grasping/Grasp.h>
#include <VirtualRobot/Grasping/GraspSet.h>
#include <VirtualRobot/Random.h>
#include <VirtualRobot/Nodes/RobotNodePrismatic.h>
#include <VirtualRobot/Workspace/Reachability.h>
#include <VirtualRobot/IK/GenericIKSolver.h>
#include <VirtualRobot/IK/GazeIK.h>
#include <VirtualRobot/IK/ConstrainedOptimizationIK.h>
#include <VirtualRobot/IK/constraints/PoseConstraint.h>
#include <VirtualRobot/IK/constraints/PositionConstraint.h>
#include <VirtualRobot/IK/constraints/OrientationConstraint.h>
#include <VirtualRobot/IK/constraints/TSRConstraint.h>
#include <VirtualRobot/IK/constraints/CoMConstraint.h>
#include <VirtualRobot/IK/constraints/CollisionCheckConstraint.h>
#include <VirtualRobot/IK/constraints/ReferenceConfigurationConstraint.h>
#include <VirtualRobot/IK/constraints/JointLimitAvoidanceConstraint.h>
using namespace VirtualRobot; typedef std::string S; typedef std::vector<float> Values;

static const int NR = 6; static RobotPtr g_robot[NR], g_gaze; static ReachabilityPtr g_reach[NR];
static S gazeXML()
{
    auto j = [](S n, S child, S tf, S axis, double lim) { return "<RobotNode name='" + n + "'><Transform>" + tf + "</Transform><Joint type='revolute'>" + axis + "<Limits lo='" + common::num(-lim) + "' hi='" + common::num(lim) + "' units='radian'/></Joint><Child name='" + child + "'/></RobotNode>"; };
    return "<Robot Type='SimHead' StandardName='SimHead' RootNode='Base'><RobotNode name='Base'><Child name='Pitch'/></RobotNode>" + j("Pitch", "Roll", "<Translation x='0' y='0' z='1000'/>", "<axis x='1' y='0' z='0'/>", 0.7) + j("Roll", "Yaw", "<Translation x='0' y='0' z='40'/>", "<axis x='0' y='1' z='0'/>", 0.4) + j("Yaw", "Eye", "<Translation x='0' y='0' z='40'/>", "<axis x='0' y='0' z='1'/>", 1.2) + j("Eye", "Gaze", "<Translation x='30' y='60' z='50'/>", "<axis x='1' y='0' z='0'/>", 0.5)
         + "<RobotNode name='Gaze'><Joint type='prismatic'><TranslationDirection x='0' y='1' z='0'/><Limits lo='0' hi='3000' units='mm'/></Joint><Child name='Point'/></RobotNode><RobotNode name='Point'/>"
         + "<RobotNodeSet name='Head' kinematicRoot='Base' tcp='Point'><Node name='Pitch'/><Node name='Roll'/><Node name='Yaw'/><Node name='Eye'/><Node name='Gaze'/></RobotNodeSet></Robot>";
}
static void setup()
{
    common::registerStub(); sim::opts().maxGapLog2 = 16;
    for (int i = 0; i < NR; i++)
    {
        common::RobotSpec s; s.n = i < 2 ? 3 : i < 4 ? 5 : 6; s.eef = i != 1; s.planar = i == 0; s.prismaticToo = i % 2; s.limitless0 = i == 3; s.limit = i == 5 ? 1.2 : 2.5; s.link = 120; g_robot[i] = common::makeRobot(s);
        g_reach[i].reset(new Reachability(g_robot[i])); float lo[6], hi[6]; for (int k = 0; k < 6; k++) { lo[k] = k < 3 ? -900 : -M_PI; hi[k] = -lo[k]; } auto rns = g_robot[i]->getRobotNodeSet("Arm"); g_reach[i]->initialize(rns, 150, 1.6, lo, hi, SceneObjectSetPtr(), SceneObjectSetPtr(), g_robot[i]->getRootNode(), rns->getTCP()); g_reach[i]->addRandomTCPPoses(400, false); rns->setJointValues(Values(s.n, 0.f));
    }
    g_gaze = RobotIO::createRobotFromString(gazeXML(), "");
}
// ---- the judge: a robot of its own at the claimed solution
struct Goal { Eigen::Matrix4f pose; int sel; float tolP, tolR; };
struct Avoid { std::vector<ObstaclePtr> obstacles; S colSet; };     // what was to be avoided, and by which links
static Eigen::Matrix4f tcpOf(RobotPtr r, S set) { return r->getRobotNodeSet(set)->getTCP()->getGlobalPose(); }
static double angle(const Eigen::Matrix4f& a, const Eigen::Matrix4f& b) { Eigen::Matrix3d d = a.block<3, 3>(0, 0).cast<double>() * b.block<3, 3>(0, 0).cast<double>().inverse(); Eigen::Vector3d v(d(2, 1) - d(1, 2), d(0, 2) - d(2, 0), d(1, 0) - d(0, 1)); return std::atan2(v.norm() / 2, (d.trace() - 1) / 2); }
static void judgePose(const char* what, const Eigen::Matrix4f& is, const Goal& g)
{
    Eigen::Vector3d d = (g.pose.block<3, 1>(0, 3) - is.block<3, 1>(0, 3)).cast<double>(); double e = 0; for (int k = 0; k < 3; k++) if (g.sel & (1 << k)) e += d[k] * d[k]; e = std::sqrt(e); double a = g.sel & 8 ? angle(g.pose, is) : 0;
    if (!(e <= g.tolP * 1.001 + 0.02) || !(a <= g.tolR * 1.001 + 2e-3)) sim::violation("not-reached", "%s: success, but the pose is off by %.4f mm, %.5f rad (allowed %g mm, %g rad; selection %d)", what, e, a, g.tolP, g.tolR, g.sel);
}
static void judgeLimits(const char* what, RobotNodeSetPtr rns, const Values& v)
{
    if (v.size() != rns->getSize()) sim::violation("wrong-size", "%s: %zu values for %u joints", what, v.size(), rns->getSize());
    for (size_t i = 0; i < v.size(); i++) { auto n = rns->getNode(i); if (!(v[i] == v[i])) sim::violation("not-a-number", "%s: joint %s is not a number", what, n->getName().c_str()); if (!n->isLimitless() && (v[i] < n->getJointLimitLo() - 1e-5 || v[i] > n->getJointLimitHi() + 1e-5)) sim::violation("limits", "%s: joint %s at %g, limits %g to %g", what, n->getName().c_str(), v[i], n->getJointLimitLo(), n->getJointLimitHi()); }
}
static void judgeCollision(const char* what, RobotPtr r, const Avoid& sc)
{
    Eigen::Matrix4f p = r->getGlobalPose();
    for (auto& o : sc.obstacles) for (auto& n : r->getRobotNodeSet(sc.colSet)->getAllRobotNodes())
    {
        if (!n->getCollisionModel()) continue; bool free = false; for (int i = 0; i < 7 && !free; i++) { Eigen::Matrix4f q = p; if (i) q((i - 1) / 2, 3) += i % 2 ? 0.05f : -0.05f; r->setGlobalPose(q); free = !n->getCollisionChecker()->checkCollision(o->getCollisionModel(), n->getCollisionModel()); } r->setGlobalPose(p);
        if (!free) sim::violation("collision", "%s: success, but link %s collides with %s", what, n->getName().c_str(), o->getName().c_str());
    }
}
struct Client
{
    int id, kind; RobotPtr robot, own; S set; RobotNodeSetPtr rns; bool faults; std::vector<ObstaclePtr> boxes; bool oom = false, colOff = false;
    RobotPtr at(const Values& v) { own->setGlobalPose(robot->getGlobalPose()); for (auto& n : robot->getRobotNodes()) if (n->isRotationalJoint() || n->isTranslationalJoint()) if (!rns->hasRobotNode(n)) own->setJointValue(n->getName(), n->getJointValue()); own->getRobotNodeSet(set)->setJointValues(v); return own; }
    Values values() { return rns->getJointValues(); }
    Values randomValues() { Values v; for (auto& n : rns->getAllRobotNodes()) { double lo = n->getJointLimitLo(), hi = n->getJointLimitHi(); v.push_back(sim::chance(0.1) ? (sim::chance(0.5) ? lo : hi) : sim::rreal(lo, hi)); } return v; }
    void checkShape(const char* what) { for (auto& n : rns->getAllRobotNodes()) { Eigen::Matrix4f a = n->getGlobalPose(), b = at(values())->getRobotNode(n->getName())->getGlobalPose(); if (!common::near(a, b, 0.05)) sim::violation("stale-pose", "%s leaves link %s at %s, its joint values put it to %s", what, n->getName().c_str(), common::str(a).c_str(), common::str(b).c_str()); } }
};
struct Status { bool vis, col; Status(RobotPtr r) : vis(r->getUpdateVisualizationStatus()), col(r->getUpdateCollisionModelStatus()) {} void same(RobotPtr r, const char* what) { if (vis != r->getUpdateVisualizationStatus() || col != r->getUpdateCollisionModelStatus()) sim::violation("status", "%s leaves the robot's visualisation update %s (was %s) and its collision model update %s (was %s)", what, r->getUpdateVisualizationStatus() ? "on" : "off", vis ? "on" : "off", r->getUpdateCollisionModelStatus() ? "on" : "off", col ? "on" : "off"); } };
// a goal: mostly one the robot can reach
static Eigen::Matrix4f goalPose(Client& c, Values& q) { q = c.randomValues(); Eigen::Matrix4f p = tcpOf(c.at(q), c.set); if (sim::chance(0.15)) p = common::randomPose(900); return p; }
static ObstaclePtr makeBox(Client& c, int i) { double a = sim::rreal(20, 200); TriMeshModelPtr m(new TriMeshModel()); common::addBox(m, a, sim::rreal(20, 200), sim::rreal(20, 200), Eigen::Matrix4f::Identity()); VisualizationNodePtr v(new common::StubVis(m)); S n = "box" + std::to_string(i); ObstaclePtr o(new Obstacle(n, v, CollisionModelPtr(new CollisionModel(v, n, CollisionChecker::getGlobalCollisionChecker())), SceneObject::Physics(), CollisionChecker::getGlobalCollisionChecker())); Eigen::Matrix4f p = common::randomPose(400); p.block<3, 1>(0, 3) += c.robot->getGlobalPose().block<3, 1>(0, 3); o->setGlobalPose(p); return o; }
struct Arm { Client& c; bool on; Arm(Client& c) : c(c), on(c.faults && sim::chance(0.3)) { if (on) sim::mem::failNew((long)std::exp(sim::rreal(0, 9.5)), false, 0); } ~Arm() { sim::mem::off(); } bool fired() { bool f = sim::mem::fired(); sim::mem::off(); return on && f; } };

static void generic(Client& c)
{
    boost::shared_ptr<GenericIKSolver> ik; Avoid sc; ReachabilityPtr reach; float tolP = 1, tolR = 0.02;
    { sim::NoPreempt np; JacobiProvider::InverseJacobiMethod m = sim::chance(0.6) ? JacobiProvider::eSVD : sim::chance(0.5) ? JacobiProvider::eSVDDamped : JacobiProvider::eTranspose; ik.reset(new GenericIKSolver(c.rns, m)); if (sim::chance(0.6)) { tolP = std::exp(sim::rreal(-1.5, 3)); tolR = std::exp(sim::rreal(-5, -1)); ik->setMaximumError(tolP, tolR); } if (sim::chance(0.5)) ik->setupJacobian(sim::rreal(0.1, 0.9), sim::rint(5, 60)); if (sim::chance(0.15)) ik->setupTranslationalJoint(c.rns->getNode(0), 0.2f);
      if (sim::chance(0.6) && !c.boxes.empty())
      {
        sc.colSet = c.set; int how = sim::rint(0, 2);
        if (how == 0) { sc.obstacles = {c.boxes[0]}; if (sim::chance(0.5)) ik->collisionDetection(c.boxes[0]); else ik->collisionDetection(boost::static_pointer_cast<SceneObject>(c.boxes[0])); }
        else if (how == 1) { sc.obstacles = c.boxes; SceneObjectSetPtr s(new SceneObjectSet("s", CollisionChecker::getGlobalCollisionChecker())); for (auto& b : c.boxes) s->addSceneObject(b); ik->collisionDetection(s); }
        else { sc.obstacles = c.boxes; CDManagerPtr m(new CDManager()); sc.colSet = "ArmCol"; for (auto& b : c.boxes) m->addCollisionModelPair(boost::static_pointer_cast<SceneObject>(b), boost::static_pointer_cast<SceneObjectSet>(c.robot->getRobotNodeSet("ArmCol"))); ik->collisionDetection(m); }
      }
      if (c.kind < NR && sim::chance(0.15)) { reach = g_reach[c.kind]; ik->setReachabilityCheck(reach); } }
    int calls = sim::rint(1, 3);
    for (int i = 0; i < calls; i++)
    {
        Values before, q, after, res; Goal g; int op, loops; ManipulationObjectPtr obj; GraspPtr gr, asked; std::vector<GraspPtr> grasps; GraspSetPtr gs; bool ok = false, threw = false, restores = false, remove = false; S what;
        { sim::NoPreempt np; g.pose = goalPose(c, q); g.tolP = tolP; g.tolR = tolR; static const int sels[] = {15, 7, 15, 8, 1, 2, 4, 3, 9, 6}; g.sel = sels[sim::rnd(sim::chance(0.6) ? 2 : 10)]; before = sim::chance(0.3) ? q : c.randomValues(); if (sim::chance(0.5)) for (size_t k = 0; k < before.size(); k++) { auto n = c.rns->getNode(k); before[k] = std::min(std::max((double)q[k] + sim::rreal(-0.3, 0.3), (double)n->getJointLimitLo()), (double)n->getJointLimitHi()); } c.rns->setJointValues(before); before = c.values(); loops = sim::chance(0.4) ? 1 : sim::rint(1, 12); op = sim::rint(0, 5);
          if (op >= 3)
          {
            obj.reset(new ManipulationObject("obj", VisualizationNodePtr(), CollisionModelPtr(), SceneObject::Physics(), CollisionChecker::getGlobalCollisionChecker())); obj->setGlobalPose(common::randomPose(400)); auto eef = c.robot->hasEndEffector("Hand") ? c.robot->getEndEffector("Hand") : EndEffectorPtr(); gs.reset(new GraspSet("gs", c.robot->getType(), "Hand"));
            int n = sim::rint(op == 3 ? 0 : 1, 3); for (int k = 0; k < n; k++) { Values d; Eigen::Matrix4f p = k ? goalPose(c, d) : g.pose; grasps.push_back(GraspPtr(new Grasp("g" + std::to_string(k), c.robot->getType(), "Hand", p.inverse() * obj->getGlobalPose()))); gs->addGrasp(grasps.back()); } if (sim::chance(0.8) || op != 3) obj->addGraspSet(gs);
          } }
        Status st(c.robot); Arm arm(c);
        try
        {
            switch (op)
            {
                case 0: what = "solve"; ok = ik->solve(g.pose, (IKSolver::CartesianSelection)g.sel, loops); break;
                case 1: what = "solveNoRNSUpdate"; restores = true; res = ik->solveNoRNSUpdate(g.pose, (IKSolver::CartesianSelection)g.sel); ok = !res.empty(); break;
                case 2: { what = "solve(position)"; AdvancedIKSolver& a = *ik; ok = a.solve(Eigen::Vector3f(g.pose.block<3, 1>(0, 3))); g.sel = 7; break; }
                case 3: what = "solve(object)"; restores = true; gr = ik->solve(obj, (IKSolver::CartesianSelection)g.sel, loops); ok = !!gr; break;
                case 4: what = "solve(object, grasp)"; restores = true; asked = grasps[sim::rnd(grasps.size())]; ok = ik->solve(obj, asked, (IKSolver::CartesianSelection)g.sel, loops); break;
                case 5: what = "sampleSolution"; restores = true; remove = sim::chance(0.5); gr = ik->sampleSolution(obj, gs, (IKSolver::CartesianSelection)g.sel, remove, loops); ok = !!gr; break;
            }
        }
        catch (const std::bad_alloc&) { if (!arm.fired()) throw; threw = true; sim::probe("out-of-memory"); }
        catch (const std::exception& e) { if (arm.fired()) { threw = true; sim::probe("out-of-memory"); } else sim::violation("spurious-failure", "%s throws %s", what.c_str(), e.what()); }
        sim::mem::off(); sim::NoPreempt np; after = c.values(); st.same(c.robot, what.c_str()); judgeLimits(what.c_str(), c.rns, after); if (!threw) c.checkShape(what.c_str());
        if (!ok || op == 1) if (restores) for (size_t k = 0; k < before.size(); k++) if (std::fabs(before[k] - after[k]) > 1e-5) sim::violation("not-restored", "%s %s: joint %s was at %g, is at %g", what.c_str(), threw ? "failed" : ok ? "succeeds" : "finds nothing", c.rns->getNode(k)->getName().c_str(), before[k], after[k]);
        if (op == 3 && gs->getSize() != grasps.size()) sim::violation("grasps-lost", "the object had %zu grasps, it has %u", grasps.size(), gs->getSize());
        if (op == 5 && !threw) { bool gone = !ok && remove; if (gs->getSize() != grasps.size() - (gone ? 1 : 0)) sim::violation("grasps-lost", "sampling %s from %zu grasps leaves %u", ok ? "a solution" : "in vain", grasps.size(), gs->getSize()); }
        sim::event(what.c_str(), ok); if (!ok) { sim::probe("failed"); continue; } sim::probe(c.boxes.size() && sc.obstacles.size() ? "solved-with-obstacles" : "solved"); if (loops > 1) sim::probe("solved-restarts");
        if (op >= 3) { if (op != 4) { asked.reset(); for (auto& x : grasps) if (x->getName() == gr->getName()) asked = x; if (!asked || !common::near(asked->getTransformation(), gr->getTransformation(), 1e-4)) sim::violation("wrong-grasp", "%s returns a grasp which is none of the object's", what.c_str()); } g.pose = obj->getGlobalPose() * asked->getTransformation().inverse(); }
        Values sol = op == 1 ? res : after; judgeLimits(what.c_str(), c.rns, sol); RobotPtr r = c.at(sol); judgePose(what.c_str(), tcpOf(r, c.set), g); judgeCollision(what.c_str(), r, sc);
        if (reach && !reach->isReachable(g.pose) && g.sel == 15) sim::violation("unreachable", "%s: success for a pose outside of the reachability space", what.c_str());
    }
}
static void gaze(Client& c)
{
    boost::shared_ptr<GazeIK> ik; float tol = 5; { sim::NoPreempt np; ik.reset(new GazeIK(c.rns, boost::dynamic_pointer_cast<RobotNodePrismatic>(c.robot->getRobotNode("Gaze")))); if (sim::chance(0.7)) { tol = std::exp(sim::rreal(-1, 3)); ik->setup(tol, sim::rint(1, 5), sim::rint(3, 30)); } if (sim::chance(0.4)) ik->enableJointLimitAvoidance(sim::chance(0.5)); }
    for (int i = 0, n = sim::rint(1, 2); i < n; i++)
    {
        Goal g; { sim::NoPreempt np; Values q; g.pose = goalPose(c, q); if (sim::chance(0.2)) g.pose.block<3, 1>(0, 3) += Eigen::Vector3f(sim::rreal(-3000, 3000), sim::rreal(-3000, 3000), 500); g.sel = 7; g.tolP = tol; g.tolR = 0; c.rns->setJointValues(c.randomValues()); }
        Status st(c.robot); bool ok = false, threw = false; Arm arm(c); try { ok = ik->solve(g.pose.block<3, 1>(0, 3), sim::chance(0.5) ? 0.6f : 0.3f); } catch (const std::bad_alloc&) { if (!arm.fired()) throw; threw = true; }
        sim::mem::off(); sim::NoPreempt np; Values v = c.values(); judgeLimits("gaze", c.rns, v); if (!threw) c.checkShape("gaze"); st.same(c.robot, "gaze"); sim::event("gaze", ok); if (ok) { judgePose("gaze", tcpOf(c.at(v), c.set), g); sim::probe("gaze-solved"); } else sim::probe("gaze-failed");
    }
}
// short queries, half of them solved at once and half of them hopeless: what one of them finds must not leak into the next
static void duel(Client& c)
{
    for (int i = 0, n = sim::rint(2, 6); i < n; i++)
    {
        boost::shared_ptr<GenericIKSolver> ik; Values q; Goal g; bool easy; S what = "solve (next to others)";
        { sim::NoPreempt np; ik.reset(new GenericIKSolver(c.rns, JacobiProvider::eSVD)); g.tolP = sim::rreal(1, 10); g.tolR = sim::rreal(0.02, 0.2); ik->setMaximumError(g.tolP, g.tolR); ik->setupJacobian(0.3f, sim::rint(2, 8)); g.pose = goalPose(c, q); g.sel = sim::chance(0.4) ? 7 : sim::chance(0.7) ? 8 : 15; easy = sim::chance(0.5); c.rns->setJointValues(easy ? q : c.randomValues()); if (!easy && sim::chance(0.5)) g.pose.block<3, 1>(0, 3) *= 5; }
        bool ok = ik->solve(g.pose, (IKSolver::CartesianSelection)g.sel, 1);
        sim::NoPreempt np; Values v = c.values(); judgeLimits(what.c_str(), c.rns, v); c.checkShape(what.c_str()); sim::event(what.c_str(), ok); if (ok) { judgePose(what.c_str(), tcpOf(c.at(v), c.set), g); sim::probe("duel-solved"); } else sim::probe("duel-failed");
    }
}
static void optimize(Client& c)
{
    boost::shared_ptr<ConstrainedOptimizationIK> ik; std::vector<std::function<void(const char*, RobotPtr)>> judges; Avoid sc; Values q; Eigen::Matrix4f goal; bool collision = false;
    {
        sim::NoPreempt np; ik.reset(new ConstrainedOptimizationIK(c.robot, c.rns, sim::chance(0.7) ? 0.5f : 0.01f)); ik->setMaxIterations(sim::rint(1, 6)); if (sim::chance(0.3)) ik->setRandomSamplingDisplacementFactor(sim::rreal(0, 1)); goal = goalPose(c, q); auto tcp = c.rns->getTCP(); S set = c.set; static const IKSolver::CartesianSelection sels[] = {IKSolver::All, IKSolver::Position, IKSolver::X, IKSolver::Y, IKSolver::Z, IKSolver::Orientation}; IKSolver::CartesianSelection sel = sels[sim::rnd(sim::chance(0.5) ? 2 : 6)];
        float tp = std::exp(sim::rreal(-1, 3)), tr = std::exp(sim::rreal(-5, -1)); int kind = sim::rint(0, 4);
        if (kind == 0) { boost::shared_ptr<PoseConstraint> k(new PoseConstraint(c.robot, c.rns, tcp, sim::chance(0.7) ? goal : common::randomPose(300), sel, tp, tr)); if (sim::chance(0.5)) k->updateTarget(goal); else goal = k->getTarget(); ik->addConstraint(k); judges.push_back([=](const char* w, RobotPtr r) { judgePose(w, tcpOf(r, set), Goal{goal, sel, tp, tr}); }); }
        if (kind == 1 || kind == 4) { IKSolver::CartesianSelection s = sel == IKSolver::All ? IKSolver::Position : sel; boost::shared_ptr<PositionConstraint> k(new PositionConstraint(c.robot, c.rns, tcp, goal.block<3, 1>(0, 3), s, tp)); ik->addConstraint(k); judges.push_back([=](const char* w, RobotPtr r) { judgePose(w, tcpOf(r, set), Goal{goal, s == IKSolver::Orientation ? 0 : (int)s, tp, tr}); }); }
        if (kind == 2 || kind == 4) { bool soft = sim::chance(0.3); boost::shared_ptr<OrientationConstraint> k(new OrientationConstraint(c.robot, c.rns, tcp, goal.block<3, 3>(0, 0), IKSolver::Orientation, tr, soft)); ik->addConstraint(k); if (!soft) judges.push_back([=](const char* w, RobotPtr r) { judgePose(w, tcpOf(r, set), Goal{goal, 8, tp, tr}); }); }
        if (kind == 3 && sim::chance(0.5))
        {
            Eigen::Matrix<float, 6, 2> b; for (int i = 0; i < 6; i++) { double e = i < 3 ? sim::rreal(0, 60) : sim::rreal(0, 0.3); b(i, 0) = -e; b(i, 1) = e; } Eigen::Matrix4f off = Eigen::Matrix4f::Identity(); if (sim::chance(0.5)) off(0, 3) = 30; Eigen::Matrix4f t = goal * off; ik->addConstraint(ConstraintPtr(new TSRConstraint(c.robot, c.rns, tcp, t, off, b, tp, tr)));
            judges.push_back([=](const char* w, RobotPtr r) { Eigen::Matrix4f e = tcpOf(r, set) * off, m = t.inverse() * e; double x = 0; for (int i = 0; i < 3; i++) { double d = std::max(0.0, std::max((double)b(i, 0) - m(i, 3), (double)m(i, 3) - b(i, 1))); x += d * d; } if (std::sqrt(x) > tp * 1.001 + 0.02) sim::violation("not-reached", "%s: success, but the task space region is missed by %g mm (allowed %g)", w, std::sqrt(x), tp);
                double lim = 0; for (int i = 3; i < 6; i++) lim += b(i, 1); double a = angle(e, t); if (a > lim + tr * 1.001 + 2e-3) sim::violation("not-reached", "%s: success, but the orientation is off by %g rad (at most %g)", w, a, lim + tr); });
        }
        else if (kind == 3)
        {
            auto bodies = c.robot->getRobotNodeSet("Arm"); Eigen::Vector3f com = c.at(q)->getRobotNodeSet("Arm")->getCoM(), t = sim::chance(0.8) ? com : Eigen::Vector3f(com + Eigen::Vector3f(200, 0, 0)); bool two = sim::chance(0.5); boost::shared_ptr<CoMConstraint> k; bool upd = sim::chance(0.5); Eigen::Vector3f first = upd ? Eigen::Vector3f(com + Eigen::Vector3f(50, -80, 20)) : t;
            if (two) k.reset(new CoMConstraint(c.robot, c.rns, bodies, Eigen::Vector2f(first.head<2>()), tp)); else k.reset(new CoMConstraint(c.robot, c.rns, bodies, first, tp)); if (upd) { if (two) k->updateTarget(Eigen::Vector2f(t.head<2>())); else k->updateTarget(t); } ik->addConstraint(k);
            judges.push_back([=](const char* w, RobotPtr r) { Eigen::Vector3f d = r->getRobotNodeSet("Arm")->getCoM() - t; if (two) d[2] = 0; if (d.norm() > tp * 1.001 + 0.02) sim::violation("not-reached", "%s: success, but the center of mass is off by %g mm (allowed %g)", w, d.norm(), tp); });
        }
        if (sim::chance(0.3)) ik->addConstraint(ConstraintPtr(new ReferenceConfigurationConstraint(c.robot, c.rns))); if (sim::chance(0.2)) ik->addConstraint(ConstraintPtr(new JointLimitAvoidanceConstraint(c.robot, c.rns)));
        if (sim::chance(0.5) && !c.boxes.empty()) { collision = true; sc.obstacles = c.boxes; sc.colSet = "ArmCol"; CDManagerPtr m(new CDManager()); for (auto& b : c.boxes) m->addCollisionModelPair(boost::static_pointer_cast<SceneObject>(b), boost::static_pointer_cast<SceneObjectSet>(c.robot->getRobotNodeSet("ArmCol"))); ik->addConstraint(ConstraintPtr(new CollisionCheckConstraint(c.rns, m))); }
    }
    for (int i = 0, n = sim::rint(1, 2); i < n; i++)
    {
        { sim::NoPreempt np; c.rns->setJointValues(sim::chance(0.3) ? q : c.randomValues()); if (!i || sim::chance(0.5)) ik->initialize(); if (sim::chance(0.2)) c.rns->setJointValues(c.randomValues()); }
        Status st(c.robot); bool ok = false, threw = false; Arm arm(c); try { ok = ik->solve(); } catch (const std::bad_alloc&) { if (!arm.fired()) throw; threw = true; sim::probe("out-of-memory"); } catch (const std::exception& e) { if (!arm.fired()) sim::violation("spurious-failure", "optimizing throws %s", e.what()); threw = true; }
        sim::mem::off(); sim::NoPreempt np; Values v = c.values(); judgeLimits("optimizing", c.rns, v); if (!threw) c.checkShape("optimizing"); st.same(c.robot, "optimizing"); sim::event("optimized", ok);
        if (ok) { RobotPtr r = c.at(v); for (auto& j : judges) j("optimizing", r); if (collision) judgeCollision("optimizing", r, sc); sim::probe(collision ? "optimized-with-obstacles" : "optimized"); } else sim::probe("optimizing-failed");
    }
}
static void run()
{
    sim::opts().allowPreempt = false; sim::opts().clockJumps = sim::chance(0.3); bool fight = sim::chance(0.3); int threads = fight || sim::chance(0.3) ? sim::rint(2, 3) : 1; std::vector<std::unique_ptr<Client>> cs; S desc; bool faults = sim::chance(0.4);
    { sim::NoPreempt np; for (int t = 0; t < threads; t++)
      {
        std::unique_ptr<Client> c(new Client); c->id = t; c->faults = faults; bool head = !fight && sim::chance(0.15); c->kind = head ? NR : (int)sim::rnd(NR); RobotPtr o = head ? g_gaze : g_robot[c->kind]; c->set = head ? "Head" : "Arm"; c->robot = o->clone("r" + std::to_string(t), CollisionChecker::getGlobalCollisionChecker()); c->own = o->clone("own" + std::to_string(t), CollisionChecker::getGlobalCollisionChecker());
        if (sim::chance(0.5)) c->robot->setGlobalPose(common::randomPose(200)); if (sim::chance(0.3)) c->robot->setUpdateVisualization(false); if (sim::chance(0.2)) c->robot->setThreadsafe(false); c->rns = c->robot->getRobotNodeSet(c->set); if (!head) { int n = fight ? 0 : sim::rint(0, 2); for (int i = 0; i < n; i++) c->boxes.push_back(makeBox(*c, i)); } desc += (head ? S("head") : "arm " + std::to_string(c->kind) + ", " + std::to_string(c->boxes.size()) + " obstacles") + "; "; cs.push_back(std::move(c));
      } }
    sim::sample("%d clients%s: %s", threads, faults ? " (faults)" : "", desc.c_str()); sim::nontrivial(); sim::opts().allowPreempt = true; sim::setStepLimit(30000000000ull, "inverse kinematics");
    for (int t = 0; t < threads; t++) sim::spawn([&, t] { Client& c = *cs[t]; { sim::NoPreempt np; VirtualRobot::PRNG64Bit().seed(sim::rnd(1 << 30)); } if (fight) { duel(c); return; } int n = sim::rint(1, 2); for (int i = 0; i < n; i++) { if (c.kind == NR) gaze(c); else if (sim::chance(0.6)) generic(c); else optimize(c); } });
    sim::joinAll(); sim::clearStepLimit();
}
sim::Harness sim::harness = {"C18", setup, run};
