// C17: grasp planning honours its budget and returns only good grasps.
#include "common.h"
#include <VirtualRobot/EndEffector/EndEffector.h>
#include <VirtualRobot/Grasping/Grasp.h>
#include <VirtualRobot/Grasping/GraspSet.h>
#include <VirtualRobot/Random.h>
#include <GraspPlanning/ApproachMovementSurfaceNormal.h>
#include <GraspPlanning/GraspPlanner/GenericGraspPlanner.h>
#include <GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.h>
#include <GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.h>
#include <GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.h>
using namespace VirtualRobot; using namespace GraspStudio; typedef std::string S;
typedef EndEffector::ContactInfoVector Infos;

// ---- hands and objects
static const int NH = 4, NO = 5; static RobotPtr g_hand[NH]; static bool g_preshapeTcp[NH]; static ObstaclePtr g_obj[NO], g_ob[2];
static S handXML(int fingers, int joints, double w, double len, double rest, double tcpOff)
{
    using common::num; std::stringstream x; auto box = [&](double a, double b, double c, double z) { S p = "<Primitives><Box width='" + num(a) + "' height='" + num(b) + "' depth='" + num(c) + "'><Transform><Translation x='0' y='0' z='" + num(z) + "'/></Transform></Box></Primitives>"; return "<Visualization enable='true'>" + p + "</Visualization><CollisionModel>" + p + "</CollisionModel>"; };
    auto tf = [&](double a, double b, double c, double yaw) { return "<Transform><Translation x='" + num(a) + "' y='" + num(b) + "' z='" + num(c) + "'/><rollpitchyaw unitsAngle='radian' roll='0' pitch='0' yaw='" + num(yaw) + "'/></Transform>"; };
    x << "<Robot Type='SimHand' StandardName='SimHand' RootNode='Arm'><RobotNode name='Arm'>" << "<Child name='Wrist'/></RobotNode>";
    x << "<RobotNode name='Wrist'>" << tf(100, 20, 30, 0.4) << "<Joint type='revolute'><axis x='0' y='0' z='1'/><Limits lo='-2' hi='2' units='radian'/></Joint><Child name='Palm'/></RobotNode>";
    x << "<RobotNode name='Palm'>" << tf(0, 0, 40, 0) << box(w, w, 10, -5) << "<Child name='GCP'/><Child name='TCP'/>"; for (int f = 0; f < fingers; f++) x << "<Child name='F" << f << "_0'/>"; x << "</RobotNode>";
    x << "<RobotNode name='GCP'>" << tf(0, 0, len * 0.5, 0) << "</RobotNode><RobotNode name='TCP'>" << tf(tcpOff, -tcpOff, len * 0.6, 0.3) << "</RobotNode>";
    for (int f = 0; f < fingers; f++) for (int j = 0; j < joints; j++)
    {
        double a = 2 * M_PI * f / fingers; x << "<RobotNode name='F" << f << "_" << j << "'>" << (j ? tf(0, 0, len / joints + 2, 0) : tf(w * 0.48 * std::cos(a), w * 0.48 * std::sin(a), 3, a));
        x << "<Joint type='revolute'><axis x='0' y='-1' z='0'/><Limits lo='" << (j ? 0 : -rest) << "' hi='1.5' units='radian'/></Joint>" << box(6, 10, len / joints - 2, len / joints / 2);
        if (j + 1 < joints) x << "<Child name='F" << f << "_" << j + 1 << "'/>"; x << "</RobotNode>";
    }
    x << "<Endeffector name='Hand' base='Palm' tcp='TCP' gcp='GCP'><Static><Node name='Palm'/></Static>";
    for (int f = 0; f < fingers; f++) { x << "<Actor name='a" << f << "'>"; for (int j = 0; j < joints; j++) x << "<Node name='F" << f << "_" << j << "' considerCollisions='All' direction='" << (j ? 1.5 : 1) << "'/>"; x << "</Actor>"; }
    x << "</Endeffector></Robot>"; return x.str();
}
static void setup()
{
    common::registerStub(); sim::opts().maxGapLog2 = 16;
    for (int i = 0; i < NH; i++)
    {
        int f = i == 0 ? 2 : i == 3 ? 4 : 3, j = i % 2 + 1; g_hand[i] = RobotIO::createRobotFromString(handXML(f, j, i == 2 ? 90 : 70, 70 + 10 * i, 0.4, i % 2 ? 6 : 0), "");
        auto e = g_hand[i]->getEndEffector("Hand"); std::vector<S> n; std::vector<float> v; for (int k = 0; k < f; k++) { n.push_back("F" + std::to_string(k) + "_0"); v.push_back(-0.1f * k); }
        RobotConfigPtr c(new RobotConfig(g_hand[i], "Open", n, v)); if (i >= 2) { c->setTCP("TCP"); g_preshapeTcp[i] = true; } e->registerPreshape(c);
    }
    auto mk = [](S n, TriMeshModelPtr m) { VisualizationNodePtr v(new common::StubVis(m)); return ObstaclePtr(new Obstacle(n, v, CollisionModelPtr(new CollisionModel(v, n, CollisionChecker::getGlobalCollisionChecker())), SceneObject::Physics(), CollisionChecker::getGlobalCollisionChecker())); };
    Eigen::Matrix4f t = Eigen::Matrix4f::Identity();
    for (int i = 0; i < NO; i++) { TriMeshModelPtr m(new TriMeshModel()); if (i == 0) common::addBox(m, 40, 50, 60, t); else if (i == 1) common::addSphere(m, 26, t); else if (i == 2) common::addCylinder(m, 18, 90, t); else if (i == 3) { common::addBox(m, 25, 25, 120, t); t(0, 3) = 20; common::addBox(m, 60, 25, 20, t); } else common::addBox(m, 14, 14, 14, t); g_obj[i] = mk("o" + std::to_string(i), m); }
    for (int i = 0; i < 2; i++) { TriMeshModelPtr m(new TriMeshModel()); common::addBox(m, 200, 200, 20, Eigen::Matrix4f::Identity()); g_ob[i] = mk("w" + std::to_string(i), m); }
}
// ---- one planner with its seams
struct Record { Eigen::Matrix4f root, tcp; std::map<S, float> values; Infos contacts; Eigen::Vector3f dir; float quality; bool fc; };
struct Work
{
    int hand, obj; bool preshape, normalized; float minQ; bool fcNeeded, retreat; float maxRetreat; bool area; SceneObjectSetPtr obstacles; int throwAt = 0; double sleepMs = 0; bool noLimit = false;
    boost::shared_ptr<class Approach> approach; GraspQualityMeasurePtr measure; boost::shared_ptr<GenericGraspPlanner> planner; GraspSetPtr set; float unit; int cone;
    std::vector<uint64_t> starts; std::vector<Record> recs; int candidates = 0, since = 0; size_t stored = 0;
};
struct Stop : std::runtime_error { Stop() : std::runtime_error("stop") {} };
class Approach : public ApproachMovementSurfaceNormal
{
public:
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    Work* w; Approach(Work* w, SceneObjectPtr o, EndEffectorPtr e, S pre, float r, bool area) : ApproachMovementSurfaceNormal(o, e, pre, r, area), w(w) {}
    Eigen::Matrix4f createNewApproachPose() override
    {
        { sim::NoPreempt np; w->starts.push_back(sim::now()); w->since++; } if (w->throwAt && w->since >= w->throwAt) throw Stop();
        if (w->noLimit && w->since > 40) throw Stop();
        w->candidates++; if (w->sleepMs > 0 && sim::chance(0.5)) sim::sleepNs((uint64_t)(w->sleepMs * 1e6 * sim::runit()));
        Eigen::Matrix4f was = getEEFPose(), p = ApproachMovementSurfaceNormal::createNewApproachPose(); sim::NoPreempt np;
        if (!common::near(getEEFPose(), was, 1e-2)) sim::violation("moved", "creating an approach pose leaves the hand moved from %s to %s", common::str(was).c_str(), common::str(getEEFPose()).c_str());
        // the hand looks along a normal of the object onto a point of its surface, outside of it
        Eigen::Vector3f n = getApproachDirGlobal(), x = p.block<3, 1>(0, 3); if ((p.block<3, 1>(0, 2) + n).norm() > 1e-3) sim::violation("wrong-approach", "approach pose does not look along the approach direction");
        bool onto = false; Eigen::Matrix4f op = object->getGlobalPose(); for (auto& f : objectModel->faces)
        {
            Eigen::Vector3f v[3]; unsigned int id[3] = {f.id1, f.id2, f.id3}; for (int i = 0; i < 3; i++) v[i] = (op * objectModel->vertices[id[i]].homogeneous()).head<3>(); Eigen::Vector3f m = (v[1] - v[0]).cross(v[2] - v[0]).normalized(); if (std::fabs(m.dot(n)) < 1 - 1e-4) continue;
            double t = (x - v[0]).dot(n); if (t < -0.05 || t > 1001 + w->maxRetreat) continue; Eigen::Vector3f q = x - n * (float)t; bool in = true; for (int i = 0; i < 3; i++) { Eigen::Vector3f e = (v[(i + 1) % 3] - v[i]).normalized(); if (m.cross(e).dot(q - v[i]) < -0.1) in = false; } if (in) onto = true;
        }
        if (!onto) sim::violation("wrong-approach", "approach pose at %s along %s does not look onto a face of the object", common::str(p).c_str(), (std::stringstream() << n.transpose()).str().c_str());
        bool free = false; for (int i = 0; i < 7 && !free; i++) { Eigen::Matrix4f q = p; if (i) q((i - 1) / 2, 3) += i % 2 ? 0.05f : -0.05f; setEEFPose(q); free = !eef_cloned->getCollisionChecker()->checkCollision(object, eef_cloned->createSceneObjectSet()); } setEEFPose(p); if (!free) sim::violation("wrong-approach", "the hand collides with the object in an approach pose");
        Eigen::Vector3f d(3, -4, 5); updateEEFPose(d); Eigen::Matrix4f moved = p; moved.block<3, 1>(0, 3) += d; if (!common::near(getEEFPose(), moved, 1e-2)) sim::violation("wrong-approach", "moving the hand by (3 -4 5) moves it from %s to %s", common::str(p).c_str(), common::str(getEEFPose()).c_str());
        setEEFPose(was); return p;
    }
};
template <class Base> class Rec : public Base
{
public:
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    Work* w = nullptr; Rec(SceneObjectPtr o, float u, float mu, int n) : Base(o, u, mu, n) {}
    void setContactPoints(const std::vector<MathTools::ContactPoint>& c) override { Base::setContactPoints(c); }
    void setContactPoints(const Infos& c) override
    {
        if (w) { sim::NoPreempt np; Record r; auto e = w->approach->getEEF(); r.root = e->getRobot()->getGlobalPose(); r.tcp = e->getTcp()->getGlobalPose(); r.values = e->getConfiguration()->getRobotNodeJointValueMap(); r.contacts = c; r.dir = w->approach->getApproachDirGlobal(); w->recs.push_back(r); }
        Base::setContactPoints(c);
    }
};
static GraspQualityMeasurePtr makeMeasure(const Work& w, Work* rec)
{
    if (w.normalized) { auto* m = new Rec<GraspQualityMeasureWrenchSpace>(g_obj[w.obj], w.unit, 0.35f, w.cone); m->preCalculatedOWS(0.5f, 1.f); m->w = rec; return GraspQualityMeasurePtr(m); }
    auto* m = new Rec<GraspQualityMeasureWrenchSpaceNotNormalized>(g_obj[w.obj], w.unit, 0.35f, w.cone); m->w = rec; return GraspQualityMeasurePtr(m);
}
// (where a face lies along a face the two nearest points are not unique, their distance is)
static bool sameContacts(const Infos& a, const Infos& b, double eps) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (a[i].robotNode->getName() != b[i].robotNode->getName() || std::fabs(a[i].distance - b[i].distance) > eps || ((a[i].contactPointFingerGlobal - b[i].contactPointFingerGlobal).norm() < 0.1 && (a[i].approachDirectionGlobal - b[i].approachDirectionGlobal).norm() > 2e-2)) return false; return true; }
static S show(const Infos& c) { std::stringstream s; for (auto& k : c) s << k.robotNode->getName() << " at " << k.contactPointObstacleLocal.transpose() << " distance " << k.distance << " direction " << k.approachDirectionGlobal.transpose() << "; "; return s.str(); }
// a hand of one's own, put where the planner's hand was
struct OwnHand { RobotPtr r; EndEffectorPtr e; };
static OwnHand ownHand(const Work& w) { OwnHand h; h.r = g_hand[w.hand]->getEndEffector("Hand")->createEefRobot("SimHand", "own"); h.e = h.r->getEndEffector("Hand"); return h; }
// (touching is not penetrating: some small movement must free every part of the hand)
static S penetrates(const OwnHand& h, SceneObjectPtr o)
{
    S who; Eigen::Matrix4f p = h.r->getGlobalPose();
    for (auto& so : h.e->createSceneObjectSet()->getSceneObjects()) { bool free = false; for (int i = 0; i < 7 && !free; i++) { Eigen::Matrix4f q = p; if (i) q((i - 1) / 2, 3) += i % 2 ? 0.05f : -0.05f; h.r->setGlobalPose(q); free = !so->getCollisionChecker()->checkCollision(o->getCollisionModel(), so->getCollisionModel()); } if (!free) who += " " + so->getName(); }
    h.r->setGlobalPose(p); return who;
}
static void judge(Work& w, size_t rec0, size_t set0, int n, bool threw)
{
    // every candidate that got contacts, judged again with a hand and a measure of one's own
    size_t g = set0, good = 0; size_t total = w.set->getSize(); if (n >= 0 && total != set0 + n) sim::violation("wrong-count", "plan reports %d grasps, the set got %zu", n, total - set0);
    auto planned = w.planner->getPlannedGrasps(); if (!threw && planned.size() != total) sim::violation("wrong-count", "%zu grasps in the set, %zu planned grasps", total, planned.size());
    for (size_t i = rec0; i < w.recs.size(); i++)
    {
        Record& r = w.recs[i]; OwnHand h = ownHand(w); h.r->setGlobalPose(r.root); h.r->setJointValues(r.values); if (!common::near(h.e->getTcp()->getGlobalPose(), r.tcp, 1e-2)) sim::violation("own-hand", "copied hand at another pose");
        Infos c = h.e->closeActors(g_obj[w.obj]); h.e->addStaticPartContacts(g_obj[w.obj], c, r.dir);
        for (auto& v : h.e->getConfiguration()->getRobotNodeJointValueMap()) if (std::fabs(v.second - r.values[v.first]) > 1e-5) sim::violation("not-closed", "finger joint %s can be closed from %g to %g", v.first.c_str(), r.values[v.first], v.second);
        if (!sameContacts(c, r.contacts, 1e-2)) sim::violation("other-contacts", "the measure was given %zu contacts: %s; closing the hand there gives %zu: %s", r.contacts.size(), show(r.contacts).c_str(), c.size(), show(c).c_str());
        auto m = makeMeasure(w, nullptr); m->setContactPoints(r.contacts); r.quality = m->getGraspQuality(); r.fc = m->isGraspForceClosure();
        bool ok = r.contacts.size() >= 2 && (!w.fcNeeded || r.fc) && r.quality >= w.minQ; if (w.obstacles && w.obstacles->getCollisionChecker()->checkCollision(h.e->createSceneObjectSet(), w.obstacles)) ok = false;
        bool last = i + 1 == w.recs.size();
        GraspPtr gr = g < total ? w.set->getGrasp(g) : GraspPtr(); bool matches = gr && common::near(gr->getTcpPoseGlobal(g_obj[w.obj]->getGlobalPose()), r.tcp, 0.05);
        if (ok && !matches && !(threw && last)) sim::violation("lost-grasp", "candidate %zu (quality %g, force closure %d) is good enough but not stored", i, r.quality, (int)r.fc);
        if (!ok && matches) sim::violation("bad-grasp", "grasp %s stored: quality %g (%g needed), force closure %d (needed %d), %zu contacts", gr->getName().c_str(), r.quality, w.minQ, (int)r.fc, (int)w.fcNeeded, r.contacts.size());
        if (!ok) { sim::probe("rejected"); continue; } if (!matches) continue; good++; g++; sim::probe("grasp");
        if (gr->getQuality() != r.quality) sim::violation("wrong-quality", "grasp %s has quality %g, its contacts %g", gr->getName().c_str(), gr->getQuality(), r.quality);
        if (gr->getEefName() != "Hand" || gr->getRobotType() != "SimHand") sim::violation("wrong-grasp", "grasp of %s of robot type %s", gr->getEefName().c_str(), gr->getRobotType().c_str());
        if (gr->getConfiguration() != r.values) sim::violation("wrong-grasp", "grasp %s holds other finger values", gr->getName().c_str());
        if (!threw && planned[g - 1] != gr) sim::violation("wrong-count", "planned grasps and grasp set differ");
        // the stored grasp alone: no penetration
        OwnHand s = ownHand(w); s.r->setGlobalPoseForRobotNode(s.e->getTcp(), gr->getTcpPoseGlobal(g_obj[w.obj]->getGlobalPose())); s.r->setJointValues(gr->getConfiguration());
        if (!common::near(s.e->getTcp()->getGlobalPose(), r.tcp, 0.05)) sim::violation("wrong-grasp", "grasp %s is stored for another hand pose", gr->getName().c_str());
        { S who = penetrates(h, g_obj[w.obj]); if (!who.empty()) sim::violation("penetration", "the hand penetrates the object in grasp %s (hand %d, object %d):%s", gr->getName().c_str(), w.hand, w.obj, who.c_str()); }
    }
    if (g != total) sim::violation("invented-grasp", "%zu grasps stored, %zu candidates were good", total - set0, good);
    GraspPlannerEvaluation e = w.planner->getEvaluation(); 
    if (!threw && (e.nrGraspsGenerated != w.candidates || e.nrGraspsValid != (int)total || e.nrGraspsValid + e.nrGraspsInvalidCollision + e.nrGraspsInvalidContacts + e.nrGraspsInvalidFC != e.nrGraspsGenerated || (int)e.graspScore.size() != e.nrGraspsGenerated || (int)e.graspValid.size() != e.nrGraspsGenerated || (int)e.timeGraspMS.size() != e.nrGraspsGenerated || (int)e.graspTypePower.size() != e.nrGraspsGenerated))
        sim::violation("wrong-evaluation", "%d candidates, %zu grasps; evaluation: %d generated, %d valid, %d in collision, %d with few contacts, %d too bad, %zu scores", w.candidates, total, e.nrGraspsGenerated, e.nrGraspsValid, e.nrGraspsInvalidCollision, e.nrGraspsInvalidContacts, e.nrGraspsInvalidFC, e.graspScore.size());
    for (float t : e.timeGraspMS) if (t < 0) sim::violation("wrong-evaluation", "a grasp took %g ms", t);
}
// evaluation of stored grasps with disturbed object poses
static void uncertainty(Work& w, bool faults)
{
    sim::NoPreempt np; ObstaclePtr o = boost::dynamic_pointer_cast<Obstacle>(g_obj[w.obj]->clone("copy")); RobotPtr r = g_hand[w.hand]->clone("evaluated", CollisionChecker::getGlobalCollisionChecker()); EndEffectorPtr e = r->getEndEffector("Hand");
    { Eigen::Matrix4f p = common::randomPose(100); r->setGlobalPose(p); o->setGlobalPose(common::randomPose(100)); for (auto& n : e->getConfiguration()->getNodes()) r->setJointValue(n, n->getJointLimitLo() + sim::runit() * (n->getJointLimitHi() - n->getJointLimitLo())); r->setJointValue("Wrist", sim::rreal(-1, 1)); }
    Eigen::Matrix4f rp = r->getGlobalPose(), op = o->getGlobalPose(); std::map<S, float> vals; for (auto& n : r->getRobotNodes()) vals[n->getName()] = n->getJointValue();
    GraspEvaluationPoseUncertainty::PoseUncertaintyConfig cfg; cfg.init(sim::rreal(0, 15), sim::rreal(0, 10), sim::chance(0.5)); GraspEvaluationPoseUncertainty ev(cfg); auto m = makeMeasure(w, nullptr);
    auto unchanged = [&](const char* what) { if (!common::near(r->getGlobalPose(), rp, 2e-3) || !common::near(o->getGlobalPose(), op, 2e-3)) sim::violation("not-restored", "%s leaves %s moved", what, common::near(r->getGlobalPose(), rp, 2e-3) ? "the object" : "the hand"); for (auto& n : r->getRobotNodes()) if (std::fabs(n->getJointValue() - vals[n->getName()]) > 1e-5) sim::violation("not-restored", "%s leaves joint %s at %g, it was %g", what, n->getName().c_str(), n->getJointValue(), vals[n->getName()]); };
    GraspPtr g; if (w.set->getSize() && sim::chance(0.7)) g = w.set->getGrasp(sim::rnd(w.set->getSize())); else g.reset(new Grasp("random", "SimHand", "Hand", common::randomPose(sim::chance(0.5) ? 50 : 400), "", 0, sim::chance(0.3) ? "Open" : ""));
    int n = sim::rint(0, 3); auto res = ev.evaluateGrasp(g, e, o, m, n); unchanged("evaluating a grasp");
    if (res.numPosesTested && res.numPosesTested != n) sim::violation("wrong-evaluation", "%d poses asked for, %d tested", n, res.numPosesTested); if (res.numPosesTested) sim::probe("grasp-evaluated"); else sim::probe("grasp-without-contacts");
    // given poses: every one as a hand of one's own finds it
    Eigen::Matrix4f gc = common::randomPose(50); auto grid = ev.generatePoses(op, gc, 2); { GraspEvaluationPoseUncertainty::PoseUncertaintyConfig z; z.init(5, 5); for (int i = 0; i < 6; i++) z.enableDimension[i] = false; GraspEvaluationPoseUncertainty one(z); auto p = one.generatePoses(op, gc); if (p.size() != 1 || !common::near(p[0], op, 0.05)) sim::violation("wrong-poses", "undisturbed poses are not the pose of the object"); }
    if (grid.size() != 2) sim::violation("wrong-poses", "%zu poses", grid.size());
    if (w.set->getSize()) { r->setGlobalPoseForRobotNode(e->getTcp(), w.set->getGrasp(0)->getTcpPoseGlobal(op)); rp = r->getGlobalPose(); }
    std::vector<Eigen::Matrix4f> poses; int k = sim::rint(0, 3); for (int i = 0; i < k; i++) { Eigen::Matrix4f d = common::randomPose(6); if (sim::chance(0.3)) d.setIdentity(); else d.block<3, 3>(0, 0).setIdentity(); poses.push_back(op * d); }
    RobotConfigPtr pre = sim::chance(0.4) ? e->getPreshape("Open") : RobotConfigPtr(); auto got = ev.evaluatePoses(e, o, poses, m, pre); unchanged("evaluating poses");
    int col = 0, valid = 0, fc = 0, marginal = 0; double q = 0; // (where the wrenches just about contain the origin, rounding decides)
    for (auto& p : poses)
    {
        RobotPtr r2 = g_hand[w.hand]->clone("own", CollisionChecker::getGlobalCollisionChecker()); r2->setGlobalPose(rp); for (auto& v : vals) r2->setJointValue(v.first, v.second); r2->setGlobalPose(rp); EndEffectorPtr e2 = r2->getEndEffector("Hand"); ObstaclePtr o2 = boost::dynamic_pointer_cast<Obstacle>(g_obj[w.obj]->clone("copy2")); o2->setGlobalPose(p);
        if (pre) r2->setJointValues(e2->getPreshape("Open")); else e2->openActors();
        // (without a preshape, the hand opens from where the pose before left it: the same as long as nothing blocks it)
        if (o2->getCollisionChecker()->checkCollision(o2->getCollisionModel(), e2->createSceneObjectSet())) { col++; continue; }
        valid++; auto c = e2->closeActors(o2); auto m2 = makeMeasure(w, nullptr); m2->setContactPoints(c); q += m2->getGraspQuality(); fc += m2->isGraspForceClosure(); marginal += c.size() && m2->getGraspQuality() < 1e-4f;
    }
    if (got.numPosesTested != k || got.numValidPoses + got.numColPoses != k) sim::violation("wrong-evaluation", "%d poses: %d tested, %d valid, %d colliding", k, got.numPosesTested, got.numValidPoses, got.numColPoses);
    if (pre) { double avg = valid ? q / valid : 0, rate = valid ? (double)fc / valid : 0; if (got.numColPoses != col || std::abs((int)got.numForceClosurePoses - fc) > marginal || std::fabs(got.avgQuality - avg) > 1e-3 * (1 + avg) || std::fabs(got.forceClosureRate - rate) > 1e-5 + (valid ? (double)marginal / valid : 0)) sim::violation("wrong-evaluation", "%d poses: %d colliding, %d force closure, quality %g, rate %g; own hands find %d, %d, %g, %g", k, got.numColPoses, got.numForceClosurePoses, got.avgQuality, got.forceClosureRate, col, fc, avg, rate); sim::probe("poses-evaluated"); }
}
static void work(Work* w, int plans, bool faults, int thread)
{
    for (int p = 0; p < plans; p++)
    {
        size_t rec0 = w->recs.size(), set0 = w->set->getSize(), st0 = w->starts.size(); int nr, to; bool oom;
        { sim::NoPreempt np; nr = sim::rint(0, 3); to = sim::chance(0.25) ? 0 : (int)std::exp(sim::rreal(0, 5.3)); w->throwAt = faults && sim::chance(0.15) ? sim::rint(1, 6) : 0; w->noLimit = to == 0; w->since = 0; w->sleepMs = sim::chance(0.4) ? std::exp(sim::rreal(0, 5)) : 0; oom = faults && sim::chance(0.15); }
        uint64_t t0 = sim::now(); int n = -1; bool threw = false;
        try { if (oom) sim::mem::failNew((long)std::exp(sim::rreal(0, 11)), false, 0); n = w->planner->plan(nr, to, w->obstacles); sim::mem::off(); }
        catch (const Stop&) { sim::mem::off(); threw = true; sim::probe("stopped"); }
        catch (const std::bad_alloc&) { bool f = sim::mem::fired(); sim::mem::off(); if (!f) throw; threw = true; sim::probe("out-of-memory"); }
        catch (const std::exception& e) { sim::mem::off(); sim::violation("spurious-failure", "planning throws %s", e.what()); }
        uint64_t t1 = sim::now(); sim::NoPreempt np; size_t made = w->set->getSize() - set0;
        if (!threw)
        {
            if (n < 0 || n > nr) sim::violation("too-many", "%d grasps asked for, %d planned", nr, n);
            if (n < nr && to == 0) sim::violation("gave-up", "no time limit, but only %d of %d grasps", n, nr);
            if (n < nr && t1 - t0 < (uint64_t)to * 1000000) sim::violation("gave-up", "only %d of %d grasps, although only %.3f of %d ms have passed", n, nr, (t1 - t0) / 1e6, to);
        }
        if (to > 0) { size_t late = 0; /* (the thread may stall before the planner looks at the clock, so count from the first candidate) */ for (size_t i = st0; i < w->starts.size(); i++) if (w->starts[i] > w->starts[st0] + (uint64_t)to * 1000000 + 1000) late++; if (late > 1) sim::violation("over-time", "%zu grasp candidates are started after the time limit of %d ms (%.1f ms in all)", late, to, (t1 - t0) / 1e6); if (n < nr && n >= 0) sim::probe("timed-out"); }
        (void)made; judge(*w, rec0, set0, n, threw); sim::event("planned", n + 1);
        if (threw) return; // (counters are not exact after an exception)
    }
    if (sim::chance(0.35)) uncertainty(*w, faults);
}
static void run()
{
    sim::opts().allowPreempt = false; sim::opts().clockJumps = sim::chance(0.5); sim::opts().clockJumpP = 0.1; int threads = sim::chance(0.3) ? 2 : 1; std::vector<std::unique_ptr<Work>> ws; S desc; bool faults = sim::chance(0.4);
    std::vector<Eigen::Matrix4f> objPose, handPose; 
    { sim::NoPreempt np; VirtualRobot::PRNG64Bit().seed(sim::rnd(1 << 30));
      for (auto& o : g_obj) { if (sim::chance(0.6)) o->setGlobalPose(common::randomPose(200)); objPose.push_back(o->getGlobalPose()); } for (auto& h : g_hand) { h->setGlobalPose(common::randomPose(100)); handPose.push_back(h->getGlobalPose()); }
      for (int t = 0; t < threads; t++)
      {
        std::unique_ptr<Work> w(new Work); w->hand = sim::rnd(NH); w->obj = t && sim::chance(0.5) ? ws[0]->obj : sim::rnd(NO); w->preshape = sim::chance(0.4); w->normalized = sim::chance(0.6); w->minQ = sim::chance(0.4) ? 0 : std::exp(sim::rreal(-7, -1)); w->fcNeeded = sim::chance(0.6); w->retreat = sim::chance(0.6); w->maxRetreat = sim::chance(0.5) ? 0 : sim::rreal(1, 40); w->area = sim::chance(0.5); w->unit = 1; w->cone = sim::rint(4, 8);
        if (sim::chance(0.35)) { w->obstacles.reset(new SceneObjectSet("obst", CollisionChecker::getGlobalCollisionChecker())); int n = sim::rint(1, 2); for (int i = 0; i < n; i++) { if (!t) { Eigen::Matrix4f p = common::randomPose(1); p.block<3, 1>(0, 3) += g_obj[w->obj]->getGlobalPose().block<3, 1>(0, 3) + p.block<3, 1>(0, 2) * (float)sim::rreal(60, 120); g_ob[i]->setGlobalPose(p); } w->obstacles->addSceneObject(g_ob[i]); } }
        w->approach.reset(new Approach(w.get(), g_obj[w->obj], g_hand[w->hand]->getEndEffector("Hand"), w->preshape ? "Open" : "", w->maxRetreat, w->area)); w->measure = makeMeasure(*w, w.get()); w->set.reset(new GraspSet("set", "SimHand", "Hand"));
        w->planner.reset(new GenericGraspPlanner(w->set, w->measure, w->approach, w->minQ, w->fcNeeded)); w->planner->setRetreatOnLowContacts(w->retreat); w->planner->setVerbose(sim::chance(0.2));
        desc += "hand " + std::to_string(w->hand) + " object " + std::to_string(w->obj) + (w->preshape ? " preshape" : "") + (w->obstacles ? " obstacles" : "") + "; "; ws.push_back(std::move(w));
      } }
    sim::sample("%d planners%s: %s", threads, faults ? " (faults)" : "", desc.c_str()); sim::nontrivial(); sim::opts().allowPreempt = true; int plans = sim::rint(1, 2); sim::setStepLimit(30000000000ull, "planning grasps");
    for (int t = 0; t < threads; t++) sim::spawn([&, t] { { sim::NoPreempt np; VirtualRobot::PRNG64Bit().seed(sim::rnd(1 << 30)); } work(ws[t].get(), plans, faults, t); });
    sim::joinAll(); sim::clearStepLimit(); sim::NoPreempt np;
    for (int i = 0; i < NO; i++) if (g_obj[i]->getGlobalPose() != objPose[i]) sim::violation("moved", "planning moves the object"); for (int i = 0; i < NH; i++) if (!common::near(g_hand[i]->getGlobalPose(), handPose[i], 0)) sim::violation("moved", "planning moves the caller's robot");
}
sim::Harness sim::harness = {"C17", setup, run};
