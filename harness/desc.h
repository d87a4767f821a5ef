// Descriptions of robots, objects and scenes for comparing them, and generators for rich ones.
#pragma once
#include "common.h"
#include <VirtualRobot/XML/ObjectIO.h>
#include <VirtualRobot/XML/SceneIO.h>
#include <VirtualRobot/XML/BaseIO.h>
#include <VirtualRobot/Scene.h>
#include <VirtualRobot/Trajectory.h>
#include <VirtualRobot/Grasping/Grasp.h>
#include <VirtualRobot/Grasping/GraspSet.h>
#include <VirtualRobot/EndEffector/EndEffector.h>
#include <VirtualRobot/EndEffector/EndEffectorActor.h>
#include <VirtualRobot/Nodes/RobotNodeRevolute.h>
#include <VirtualRobot/Nodes/RobotNodePrismatic.h>
#include <VirtualRobot/Nodes/PositionSensor.h>
#include <VirtualRobot/Import/MeshImport/STLReader.h>
#include <boost/filesystem.hpp>
#include <sys/stat.h>
#include <boost/pointer_cast.hpp>
using namespace VirtualRobot; using common::str;
typedef std::string S;

// ---- descriptions: a sorted list of "key" = numbers or text, compared to the precision of the printed numbers ----
struct Desc
{
    std::map<S, S> text; std::map<S, std::vector<double>> nums;
    void t(const S& k, const S& v) { text[k] = v; }
    void n(const S& k, double v) { nums[k].push_back(v); }
    void m(const S& k, const Eigen::MatrixXf& a) { auto& v = nums[k]; for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) v.push_back(a(i, j)); }
};
// key endings: "box", "com", "centre", "pose" are lengths
static S diff(const Desc& a, const Desc& b, double rel = 2e-5)
{
    for (auto& p : a.text) { auto i = b.text.find(p.first); if (i == b.text.end()) return p.first + " (" + p.second + ") is missing"; if (i->second != p.second) return p.first + " is '" + i->second + "' instead of '" + p.second + "'"; }
    for (auto& p : b.text) if (!a.text.count(p.first)) return p.first + " (" + p.second + ") is new";
    for (auto& p : a.nums)
    {
        auto i = b.nums.find(p.first); if (i == b.nums.end()) return p.first + " is missing";
        if (i->second.size() != p.second.size()) return p.first + " has " + std::to_string(i->second.size()) + " values instead of " + std::to_string(p.second.size());
        S tail = p.first.substr(p.first.rfind(' ') + 1); double flr = tail == "com" || tail == "box" || tail == "centre" || tail == "pose" ? 1e-3 : 2e-6;   // lengths in mm that were computed from other numbers
        double big = 1; if (p.second.size() > 1) for (double v : p.second) big = std::max(big, std::fabs(v));
        for (size_t k = 0; k < p.second.size(); k++) { double x = p.second[k], y = i->second[k]; if (!(std::fabs(x - y) <= rel * std::max(std::fabs(x), p.second.size() > 1 ? 1e-3 * big : 0.0) + (rel > 0 ? flr : 0))) { char s[200]; snprintf(s, sizeof s, " [%zu] is %.9g instead of %.9g", k, y, x); return p.first + s; } }
    }
    for (auto& p : b.nums) if (!a.nums.count(p.first)) return p.first + " is new";
    return "";
}
static void mesh(Desc& d, const S& k, TriMeshModelPtr m)
{
    if (!m || m->faces.empty()) { d.n(k + " faces", 0); return; }
    d.n(k + " faces", m->faces.size());
    Eigen::Vector3f lo = m->vertices[0], hi = lo, sum(0, 0, 0);
    for (auto& v : m->vertices) { lo = lo.cwiseMin(v); hi = hi.cwiseMax(v); }
    for (auto& f : m->faces) for (unsigned int id : {f.id1, f.id2, f.id3}) sum += m->vertices[id] / (3 * m->faces.size());
    d.m(k + " box", lo); d.m(k + " box", hi); d.m(k + " centre", sum);
}
static void models(Desc& d, const S& k, SceneObjectPtr o)
{
    VisualizationNodePtr v = o->getVisualization(SceneObject::Full); mesh(d, k + " visualisation", v ? v->getTriMeshModel() : TriMeshModelPtr());
    CollisionModelPtr c = o->getCollisionModel(); mesh(d, k + " collision model", c ? c->getTriMeshModel() : TriMeshModelPtr());
}
static void physics(Desc& d, const S& k, SceneObjectPtr o)
{
    d.n(k + " mass", o->getMass()); d.n(k + " friction", o->getFriction()); d.m(k + " com", o->getCoMLocal()); d.m(k + " inertia", o->getInertiaMatrix()); d.n(k + " simulation type", o->getSimulationType());
    std::vector<S> ic = o->getPhysics().ignoreCollisions; S s; for (auto& x : ic) s += x + " "; d.t(k + " ignored collisions", s);
}
static void config(Desc& d, const S& k, RobotConfigPtr c, bool tcp)
{
    for (auto& p : c->getRobotNodeJointValueMap()) d.n(k + " value of " + p.first, p.second);
    if (tcp) d.t(k + " tcp", c->getTCP() ? c->getTCP()->getName() : "-");
}
static void nodeSet(Desc& d, const S& k, RobotNodeSetPtr s)
{
    S l; for (auto& n : s->getAllRobotNodes()) l += n->getName() + " ";
    d.t(k + " nodes", l); d.t(k + " tcp", s->getTCP() ? s->getTCP()->getName() : "-"); d.t(k + " root", s->getKinematicRoot() ? s->getKinematicRoot()->getName() : "-");
}
static Desc robotDesc(RobotPtr r, bool eef, bool sets, bool sensors, bool withModels, bool massFromModels)
{
    Desc d; d.t("type", r->getType()); d.t("root", r->getRootNode()->getName());
    for (auto& n : r->getRobotNodes())
    {
        S k = "node " + n->getName(); d.t(k + " parent", n->getParent() && n->getParent() != r->getRootNode()->getParent() ? n->getParent()->getName() : "-");
        d.m(k + " transformation", n->getLocalTransformation());
        int type = n->isRotationalJoint() ? 1 : n->isTranslationalJoint() ? 2 : 0; d.n(k + " type", type);
        if (type)
        {
            d.n(k + " lower limit", n->getJointLimitLo()); d.n(k + " upper limit", n->getJointLimitHi()); d.n(k + " limitless", n->isLimitless());
            d.n(k + " max velocity", n->getMaxVelocity()); d.n(k + " max acceleration", n->getMaxAcceleration()); d.n(k + " max torque", n->getMaxTorque()); d.n(k + " offset", n->getJointValueOffset());
            if (type == 1) d.m(k + " axis", boost::static_pointer_cast<RobotNodeRevolute>(n)->getJointRotationAxisInJointCoordSystem());
            else d.m(k + " direction", boost::static_pointer_cast<RobotNodePrismatic>(n)->getJointTranslationDirectionJointCoordSystem());
        }
        if (!massFromModels) physics(d, k, n);
        if (withModels) models(d, k, n);
        if (sensors) for (auto& s : n->getSensors()) { d.t(k + " sensor " + s->getName(), s->getParent() == n ? "here" : "elsewhere"); Eigen::Matrix4f rel = n->getGlobalPose().inverse() * s->getGlobalPose(); d.m(k + " sensor " + s->getName() + " pose", rel); }
    }
    if (sets) for (auto& s : r->getRobotNodeSets()) nodeSet(d, "node set " + s->getName(), s);
    if (eef) for (auto& e : r->getEndEffectors())
    {
        S k = "end effector " + e->getName(); d.t(k + " base", e->getBase() ? e->getBase()->getName() : "-"); d.t(k + " tcp", e->getTcp() ? e->getTcp()->getName() : "-"); d.t(k + " gcp", e->getGCP() ? e->getGCP()->getName() : "-");
        S st; std::vector<RobotNodePtr> ss; e->getStatics(ss); for (auto& n : ss) st += n->getName() + " "; d.t(k + " statics", st);
        std::vector<EndEffectorActorPtr> as; e->getActors(as);
        for (auto& a : as) { S l; for (auto& n : a->getRobotNodes()) l += n->getName() + " "; d.t(k + " actor " + a->getName(), l); }
        for (auto& p : e->getPreshapes()) config(d, k + " preshape " + p, e->getPreshape(p), false);
        // the directions of the actors are seen by moving them (on a copy)
    }
    return d;
}
// which joint moves where when a value is propagated or the hand is closed: observed on a copy
static void motions(Desc& d, RobotPtr r, bool eef)
{
    RobotPtr c = r->clone("copy");
    auto nodes = c->getRobotNodes(); std::map<S, float> zero;
    for (auto& n : nodes) if (n->isRotationalJoint() || n->isTranslationalJoint()) zero[n->getName()] = 0.05f;
    c->setJointValues(zero);
    for (auto& z : zero) { c->getRobotNode(z.first)->setJointValue(0.11f); Eigen::VectorXf v(zero.size()); int i = 0; for (auto& y : zero) v[i++] = c->getRobotNode(y.first)->getJointValue(); d.m("joint values after moving " + z.first, v); c->setJointValues(zero); }
    if (eef) for (auto& e : c->getEndEffectors()) { e->closeActors(); Eigen::VectorXf v(zero.size()); int i = 0; for (auto& y : zero) v[i++] = c->getRobotNode(y.first)->getJointValue(); d.m("joint values after closing " + e->getName(), v); c->setJointValues(zero); }
}
static void grasps(Desc& d, const S& k, ManipulationObjectPtr o)
{
    for (auto& g : o->getAllGraspSets())
    {
        S q = k + " grasp set " + g->getName(); d.t(q, g->getRobotType() + "/" + g->getEndEffector());
        for (auto& x : g->getGrasps())
        {
            S y = q + " grasp " + x->getName(); d.t(y, x->getRobotType() + "/" + x->getEefName() + "/" + x->getCreationMethod() + "/" + x->getPreshapeName());
            d.n(y + " quality", x->getQuality()); d.m(y + " pose", x->getTransformation());
            for (auto& p : x->getConfiguration()) d.n(y + " value of " + p.first, p.second);
        }
    }
}
static Desc objectDesc(ManipulationObjectPtr o, bool withModels = true)
{
    Desc d; d.t("name", o->getName()); d.m("pose", o->getGlobalPose()); physics(d, "object", o); if (withModels) models(d, "object", o); grasps(d, "object", o);
    return d;
}
static Desc sceneDesc(ScenePtr s)
{
    Desc d; d.t("name", s->getName());
    for (auto& r : s->getRobots())
    {
        S k = "robot " + r->getType(); d.m(k + " pose", r->getGlobalPose());
        for (auto& n : r->getRobotNodes()) if (n->isRotationalJoint() || n->isTranslationalJoint()) d.n(k + " value of " + n->getName(), n->getJointValue());
        for (auto& c : s->getRobotConfigs(r)) if (c->getName().compare(0, 6, "Config") == 0) /* the current one is stored as another, named after the robot */ config(d, k + " configuration " + c->getName(), c, true);
    }
    for (auto& o : s->getManipulationObjects()) { S k = "manipulation object " + o->getName(); d.m(k + " pose", o->getGlobalPose()); physics(d, k, o); models(d, k, o); grasps(d, k, o); }
    for (auto& o : s->getObstacles()) { S k = "obstacle " + o->getName(); d.m(k + " pose", o->getGlobalPose()); physics(d, k, o); models(d, k, o); }
    for (auto& o : s->getSceneObjectSets()) { S l; for (auto& x : o->getSceneObjects()) l += x->getName() + " "; d.t("object set " + o->getName(), l); }
    for (auto& t : s->getTrajectories()) { S k = "trajectory " + t->getName(); d.t(k, t->getRobotNodeSet()->getRobot()->getType() + "/" + t->getRobotNodeSet()->getName()); for (unsigned int i = 0; i < t->getNrOfPoints(); i++) d.m(k + " point " + std::to_string(i), t->getPoint(i)); d.n(k + " points", t->getNrOfPoints()); }
    return d;
}
// ---- generated objects -----------------------------------------------------------------------
static SceneObject::Physics randomPhysics()
{
    SceneObject::Physics p;
    if (sim::chance(0.7)) p.massKg = sim::rreal(0, 10);
    if (sim::chance(0.4)) { p.comLocation = SceneObject::Physics::eCustom; p.localCoM << sim::rreal(-50, 50), sim::rreal(-50, 50), sim::rreal(-50, 50); }
    if (sim::chance(0.5)) { p.inertiaMatrix.setZero(); for (int i = 0; i < 3; i++) p.inertiaMatrix(i, i) = sim::rreal(0.001, 2); }
    if (sim::chance(0.3)) p.simType = sim::chance(0.3) ? SceneObject::Physics::eStatic : sim::chance(0.5) ? SceneObject::Physics::eDynamic : SceneObject::Physics::eKinematic;
    if (sim::chance(0.3)) p.friction = sim::rreal(0, 1);
    if (sim::chance(0.2)) p.ignoreCollisions.push_back("other");
    return p;
}
static VisualizationNodePtr randomVis()
{
    std::vector<Primitive::PrimitivePtr> ps; int n = 1 + sim::rnd(3);
    for (int i = 0; i < n; i++)
    {
        Primitive::PrimitivePtr p;
        switch (sim::rnd(3)) { case 0: p.reset(new Primitive::Box(sim::rint(5, 80), sim::rreal(5, 80), sim::rint(5, 80))); break; case 1: p.reset(new Primitive::Sphere(sim::rreal(5, 50))); break; default: p.reset(new Primitive::Cylinder(sim::rreal(5, 40), sim::rint(5, 80))); }
        if (sim::chance(0.6)) p->transform = common::randomPose(100);
        ps.push_back(p);
    }
    return VisualizationFactory::first(NULL)->getVisualizationFromPrimitives(ps);
}
static ManipulationObjectPtr makeObject(const S& name)
{
    VisualizationNodePtr v = sim::chance(0.9) ? randomVis() : VisualizationNodePtr(); CollisionModelPtr c;
    if (v && sim::chance(0.8)) c.reset(new CollisionModel(sim::chance(0.5) ? v->clone() : randomVis(), name + "_col", CollisionCheckerPtr()));
    ManipulationObjectPtr o(new ManipulationObject(name, v, c, randomPhysics())); o->initialize();
    if (sim::chance(0.7)) o->setGlobalPose(common::randomPose(1000));
    int ns = sim::rnd(3);
    for (int i = 0; i < ns; i++)
    {
        S rt = "SimArm", ee = "Hand" + std::to_string(i); GraspSetPtr g(new GraspSet("Grasps " + std::to_string(i), rt, ee)); int ng = sim::rnd(6);
        for (int k = 0; k < ng; k++)
        {
            GraspPtr x(new Grasp("Grasp " + std::to_string(k), rt, ee, common::randomPose(200), sim::chance(0.5) ? "Planner" : "by hand", sim::chance(0.3) ? 0 : sim::rreal(0, 1), sim::chance(0.5) ? "Open" : ""));
            if (sim::chance(0.5)) { std::map<S, float> m; for (int j = 0; j < 3; j++) m["F" + std::to_string(j)] = sim::rreal(-1, 1); x->setConfiguration(m); }
            g->addGrasp(x);
        }
        o->addGraspSet(g);
    }
    return o;
}
static ObstaclePtr makeObstacle(const S& name)
{
    VisualizationNodePtr v = randomVis(); CollisionModelPtr c; if (sim::chance(0.8)) c.reset(new CollisionModel(v->clone(), name + "_col", CollisionCheckerPtr()));
    ObstaclePtr o(new Obstacle(name, v, c, randomPhysics())); o->initialize(); if (sim::chance(0.7)) o->setGlobalPose(common::randomPose(1000));
    return o;
}
static RobotConfigPtr makeConfig(RobotPtr r, const S& name, const std::map<S, float>& m) { std::vector<S> n; std::vector<float> v; for (auto& x : m) { n.push_back(x.first); v.push_back(x.second); } return RobotConfigPtr(new RobotConfig(r, name, n, v)); }
// hardly any rotation or translation
static Eigen::Matrix4f tiny()
{
    Eigen::Matrix4f t = Eigen::Matrix4f::Identity(); float m = std::pow(10.0f, -(1 + sim::rreal(0, 2.5)));
    if (sim::chance(0.5)) t.block<3, 3>(0, 0) = Eigen::AngleAxisf(m, Eigen::Vector3f::Unit(sim::rnd(3))).toRotationMatrix(); else t(sim::rnd(3), 3) = m;
    return t;
}
static RobotPtr makeRobot(const S& type, bool meshes)
{
    common::RobotSpec s; s.type = s.name = type; s.n = 2 + sim::rnd(4); s.meshes = s.fingerMeshes = meshes; s.eef = sim::chance(0.6); s.branchAt = sim::chance(0.4) ? (int)sim::rnd(s.n) : -1; s.limitless0 = sim::chance(0.3); s.limit = sim::rreal(0.3, 3);
    if (sim::chance(0.3)) { s.propFrom = "J0"; s.propTo = s.branchAt >= 0 ? "B1" : "J1"; s.propFactor = sim::rreal(-1, 1); if (s.propTo == "J1") s.prismaticToo = false; }
    s.mass = sim::chance(0.7);
    RobotPtr r = common::makeRobot(s);
    if (sim::chance(0.2)) { auto all = r->getRobotNodes(); Eigen::Matrix4f t = tiny(); sim::pick(all)->setLocalTransformation(t); }
    for (auto& n : r->getRobotNodes())
        if (n->isRotationalJoint() || n->isTranslationalJoint())
        {
            if (sim::chance(0.5)) n->setMaxVelocity(sim::rreal(0.1, 5)); if (sim::chance(0.5)) n->setMaxAcceleration(sim::rreal(0.1, 5)); if (sim::chance(0.5)) n->setMaxTorque(sim::rreal(1, 500));
        }
    if (s.eef && sim::chance(0.6)) { std::map<S, float> m; m["F0"] = sim::rreal(-0.3, 0.3); m["F1"] = sim::rreal(-0.3, 0.3); r->getEndEffector("Hand")->registerPreshape(makeConfig(r, "Open", m)); }
    if (sim::chance(0.3))
    {
        std::vector<RobotNodePtr> some; auto all = r->getRobotNodes(); for (auto& n : all) if (sim::chance(0.4)) some.push_back(n);
        if (!some.empty()) RobotNodeSet::createRobotNodeSet(r, "Some", some, sim::chance(0.5) ? sim::pick(all) : RobotNodePtr(), sim::chance(0.5) ? sim::pick(all) : RobotNodePtr(), true);
    }
    if (sim::chance(0.3)) { auto all = r->getRobotNodes(); RobotNodePtr n = sim::pick(all); PositionSensorPtr p(new PositionSensor(n, "Position", VisualizationNodePtr(), sim::chance(0.5) ? common::randomPose(100) : Eigen::Matrix4f(Eigen::Matrix4f::Identity()))); n->registerSensor(p); }
    return r;
}
