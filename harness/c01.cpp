// C01: a thread-safe robot behaves like an atomic object: concurrent updates and reads are linearizable.
#include "common.h"
#include <VirtualRobot/Trajectory.h>
#include <VirtualRobot/Nodes/RobotNodeRevolute.h>
#include <unordered_set>
using namespace VirtualRobot; using namespace common;

static const int NR = 4;
static RobotPtr g_robot[NR], g_ref[NR];

struct State { std::vector<float> q; int gp; };
struct Read                      // what an operation returned
{
    std::vector<std::pair<int, Eigen::Matrix4f>> poses;        // node index (-1: the robot itself)
    std::vector<std::pair<int, Eigen::Matrix4f>> rootPoses;    // poses in the root frame
    std::vector<std::pair<int, float>> values;                 // joint index, value
    std::vector<std::pair<int, Eigen::Vector3f>> rootPos, axes; // positions in the root frame, joint axes
    std::vector<std::pair<int, Eigen::Matrix4f>> forNode;      // robot pose for "node at g_target"
    std::vector<std::pair<std::pair<int, int>, Eigen::Matrix4f>> between; // pose of the second node seen from the first (-1: robot)
    std::vector<std::pair<int, Eigen::Vector3f>> com;          // of a node set, -1: of the robot, -2: of the robot in its own frame
};
struct Op
{
    int thread; const char* name; u_int64_t inv = 0, res = 0; bool done = false;
    std::vector<std::pair<int, float>> set; int gp = -1;       // effect
    bool single = false; int rel = -1; bool relPos = false; int target = -1;        // effect: move the robot such that node rel is at gposes[target]
    Read rd;
};
static std::vector<Op> ops;
static u_int64_t clockSeq = 0;
static std::vector<Eigen::Matrix4f, Eigen::aligned_allocator<Eigen::Matrix4f>> gposes;
static RobotPtr robot, ref; static std::vector<RobotNodePtr> joints, nodes, refJoints, refNodes;
static std::vector<RobotNodeSetPtr> sets; static std::vector<std::vector<int>> setIdx;
static int leader = -1, follower = -1; static float followFactor = 0, followLo = 0, followHi = 0;   // joint that is set along when the leader is set by itself
static int pool = 0; static std::vector<std::vector<float>> pools;                     // few values per joint: updates may repeat earlier ones

static void setup()
{
    sim::opts().maxGapLog2 = 14;
    for (int i = 0; i < NR; i++)
    {
        RobotSpec s; s.n = 2 + i; s.branchAt = i == 1 ? -1 : 0; s.meshes = i == 2; s.mass = true;
        if (i == 3) { s.n = 3; s.branchAt = 1; s.propFrom = "J0"; s.propTo = "B1"; s.propFactor = -0.7; }
        s.type = "SimArm" + std::to_string(i);
        g_robot[i] = makeRobot(s);
        if (i >= 2) RobotNodeSet::createRobotNodeSet(g_robot[i], "Low", std::vector<std::string>{"J1", "J2"}, "J1", "TCP", true);
        g_ref[i] = g_robot[i]->clone("ref");
    }
}
// expected values of a state (cached)
struct Exp { std::vector<Eigen::Matrix4f, Eigen::aligned_allocator<Eigen::Matrix4f>> pose, root; Eigen::Matrix4f g; EIGEN_MAKE_ALIGNED_OPERATOR_NEW };
static std::map<std::pair<std::vector<float>, int>, boost::shared_ptr<Exp>> cache;
static const Exp& expected(const State& s)
{
    auto& e = cache[std::make_pair(s.q, s.gp)];
    if (!e)
    {
        e.reset(new Exp());
        ref->setGlobalPose(gposes[s.gp], false);
        for (size_t i = 0; i < refJoints.size(); i++) refJoints[i]->setJointValueNoUpdate(s.q[i]);
        ref->applyJointValues();
        for (auto& n : refNodes) { e->pose.push_back(n->getGlobalPose()); e->root.push_back(n->getPoseInRootFrame()); }
        e->g = gposes[s.gp];
    }
    return *e;
}
static void setRef(const State& s)
{
    ref->setGlobalPose(gposes[s.gp], false);
    for (size_t i = 0; i < refJoints.size(); i++) refJoints[i]->setJointValueNoUpdate(s.q[i]);
    ref->applyJointValues();
}
static std::map<std::pair<std::pair<std::vector<float>, int>, int>, int> relCache;
static int relative(const State& s, int op)
{
    auto k = std::make_pair(std::make_pair(s.q, s.gp), op);
    auto it = relCache.find(k); if (it != relCache.end()) return it->second;
    setRef(s);
    Eigen::Matrix4f t = gposes[ops[op].target];
    gposes.push_back(ops[op].relPos ? ref->getGlobalPositionForRobotNode(refNodes[ops[op].rel], t.block<3, 1>(0, 3)) : ref->getGlobalPoseForRobotNode(refNodes[ops[op].rel], t));
    return relCache[k] = gposes.size() - 1;
}
static bool matches(const Read& r, const State& s)
{
    for (auto& v : r.values) if (std::fabs(v.second - s.q[v.first]) > 1e-4) return false;
    if (r.rootPos.size() || r.axes.size() || r.forNode.size())
    {
        setRef(s);
        for (auto& p : r.rootPos) if (!near(p.second, refNodes[p.first]->getPositionInRootFrame(), 2e-2)) return false;
        for (auto& p : r.axes) if (!near(p.second, boost::dynamic_pointer_cast<RobotNodeRevolute>(refNodes[p.first])->getJointRotationAxis(refNodes[0]), 1e-3)) return false;
        for (auto& p : r.forNode) if (!near(p.second, ref->getGlobalPoseForRobotNode(refNodes[p.first], gposes[0]), 2e-2)) return false;
    }
    for (auto& c : r.com)
    {
        setRef(s);
        Eigen::Vector3f e = c.first >= 0 ? ref->getRobotNodeSet(sets[c.first]->getName())->getCoM() : c.first == -1 ? ref->getCoMGlobal() : ref->getCoMLocal();
        if (!near(c.second, e, 2e-2)) return false;
    }
    for (auto& b : r.between)
    {
        const Exp& e = expected(s);
        const Eigen::Matrix4f &f = b.first.first < 0 ? e.g : e.pose[b.first.first], &t = b.first.second < 0 ? e.g : e.pose[b.first.second];
        if (!near(b.second, f.inverse() * t, 4e-2)) return false;
    }
    if (r.poses.empty() && r.rootPoses.empty()) return true;
    const Exp& e = expected(s);
    for (auto& p : r.poses) if (!near(p.second, p.first < 0 ? e.g : e.pose[p.first], 2e-2)) return false;
    for (auto& p : r.rootPoses) if (!near(p.second, e.root[p.first], 2e-2)) return false;
    return true;
}
static std::unordered_set<u_int64_t> seen;
static bool lin(u_int64_t mask, const State& s)
{
    if (mask == (1ULL << ops.size()) - 1) return true;
    u_int64_t h = mask * 0x9E3779B97F4A7C15ULL;
    for (float f : s.q) { u_int32_t b; memcpy(&b, &f, 4); h = (h ^ b) * 0x100000001b3ULL; h ^= h >> 29; }
    h = (h ^ s.gp) * 0x100000001b3ULL;
    if (!seen.insert(h).second) return false;
    u_int64_t minRes = UINT64_MAX;
    for (size_t i = 0; i < ops.size(); i++) if (!(mask >> i & 1)) minRes = std::min(minRes, ops[i].res);
    for (size_t i = 0; i < ops.size(); i++)
    {
        if ((mask >> i & 1) || ops[i].inv > minRes) continue;
        if (!matches(ops[i].rd, s)) continue;
        State n = s;
        for (auto& v : ops[i].set) { n.q[v.first] = v.second; if (ops[i].single && v.first == leader) n.q[follower] = std::min(std::max(v.second * followFactor, followLo), followHi); }
        if (ops[i].gp >= 0) n.gp = ops[i].gp;
        if (ops[i].rel >= 0) n.gp = relative(s, i);
        if (lin(mask | 1ULL << i, n)) return true;
    }
    return false;
}

static float rv(int j)
{
    if (pool) { auto& p = pools[j]; if ((int)p.size() < pool) { p.push_back(joints[j]->isTranslationalJoint() ? sim::rreal(-190, 190) : sim::rreal(-2.4, 2.4)); return p.back(); } return p[sim::rnd(p.size())]; }
    return joints[j]->isTranslationalJoint() ? sim::rreal(-190, 190) : sim::rreal(-2.4, 2.4);
}
static int begin(int th, const char* name)
{
    sim::NoPreempt np;
    Op o; o.thread = th; o.name = name; o.inv = ++clockSeq; o.res = UINT64_MAX;
    ops.push_back(o);
    return ops.size() - 1;
}
static void end(int i, const Read* r = nullptr)
{
    sim::NoPreempt np;
    if (r) ops[i].rd = *r;
    ops[i].res = ++clockSeq; ops[i].done = true;
    sim::log("%s%s", ops[i].name, r ? "" : " (update)");
}
static int nodeIdx(const std::string& n) { for (size_t i = 0; i < nodes.size(); i++) if (nodes[i]->getName() == n) return i; return -1; }

// ---- one random operation; all inputs are drawn before it is invoked --------------------------------
struct Plan { int kind, set; std::vector<int> idx; std::vector<float> val; int gp; int node; };
static Plan plan(int writeBias, int only = 0)
{
    Plan p; p.gp = -1; p.node = sim::rnd(nodes.size());
    p.kind = sim::chance(writeBias / 100.0) ? sim::rint(0, 15) : sim::rint(19, 38);
    if (p.kind == 19) p.kind = 32;
    if (only) p.kind = only;
    p.set = sim::chance(0.5) ? 0 : sim::rnd(sets.size());
    if (p.kind == 5) { int j = sim::rnd(joints.size()); p.idx.push_back(leader >= 0 && sim::chance(0.4) ? leader : j); }
    else if (p.kind == 2 || p.kind == 3 || p.kind == 4 || p.kind == 8) { for (size_t j = 0; j < joints.size(); j++) if (sim::chance(0.7)) p.idx.push_back(j); if (p.idx.empty()) p.idx.push_back(0); }
    else p.idx = setIdx[p.set];
    for (int j : p.idx) p.val.push_back(rv(j));
    if (p.kind == 6 || p.kind == 7 || p.kind >= 12 && p.kind < 16) { if (pool && gposes.size() > 2 && sim::chance(0.5)) p.gp = sim::rnd(gposes.size()); else { p.gp = gposes.size(); gposes.push_back(randomPose(500)); } }
    return p;
}
static void exec(int th, const Plan& p)
{
    RobotNodeSetPtr rns = sets[p.set];
    std::vector<float> v = p.val;
    auto setEff = [&](int i) { sim::NoPreempt np; for (size_t k = 0; k < p.idx.size(); k++) ops[i].set.push_back(std::make_pair(p.idx[k], v[k])); };
    if (p.kind < 20)
    {
        switch (p.kind)
        {
            case 0: { int i = begin(th, "nodeset.setJointValues(vector)"); setEff(i); rns->setJointValues(v); end(i); break; }
            case 1: { Eigen::VectorXf e(v.size()); for (size_t k = 0; k < v.size(); k++) e[k] = v[k]; int i = begin(th, "robot.setJointValues(nodeset,Eigen)"); setEff(i); robot->setJointValues(rns, e); end(i); break; }
            case 2: { std::map<std::string, float> m; for (size_t k = 0; k < p.idx.size(); k++) m[joints[p.idx[k]]->getName()] = v[k]; int i = begin(th, "robot.setJointValues(map name)"); setEff(i); robot->setJointValues(m); end(i); break; }
            case 3: { std::map<RobotNodePtr, float> m; for (size_t k = 0; k < p.idx.size(); k++) m[joints[p.idx[k]]] = v[k]; int i = begin(th, "robot.setJointValues(map node)"); setEff(i); robot->setJointValues(m); end(i); break; }
            case 4: { std::vector<RobotNodePtr> n; for (int k : p.idx) n.push_back(joints[k]); int i = begin(th, "robot.setJointValues(vector)"); setEff(i); robot->setJointValues(n, v); end(i); break; }
            case 5: { int i = begin(th, "node.setJointValue"); setEff(i); { sim::NoPreempt np; ops[i].single = true; } if (v[0] > 0) joints[p.idx[0]]->setJointValue(v[0]); else robot->setJointValue(joints[p.idx[0]]->getName(), v[0]); end(i); break; }
            case 6: { Eigen::Matrix4f m = gposes[p.gp]; int i = begin(th, "robot.setGlobalPose"); { sim::NoPreempt np; ops[i].gp = p.gp; } robot->setGlobalPose(m); end(i); break; }
            case 7: { Eigen::Matrix4f m = gposes[p.gp]; int i = begin(th, "lock{setJointValues,setGlobalPose}"); setEff(i); { sim::NoPreempt np; ops[i].gp = p.gp; }
                      { WriteLockPtr l = robot->getWriteLock(); rns->setJointValues(v); robot->setGlobalPose(m); } end(i); break; }
            case 8: case 9: { RobotConfigPtr c; { std::map<RobotNodePtr, float> m; for (size_t k = 0; k < p.idx.size(); k++) m[joints[p.idx[k]]] = v[k]; c.reset(new RobotConfig(robot, "c", m)); }
                      int i = begin(th, "robot.setConfig / config.setJointValues"); setEff(i);
                      if (p.kind == 8) robot->setConfig(c); else if (v[0] > 0.3) c->setJointValues(); else if (v[0] > -0.5) rns->setJointValues(c); else if (v[0] > -1.2) robot->setJointValues(c); else robot->setJointValues(rns, c);
                      end(i); break; }
            case 10: { Eigen::VectorXf e(v.size()); for (size_t k = 0; k < v.size(); k++) e[k] = v[k]; TrajectoryPtr t(new Trajectory(rns)); t->addPoint(e); t->addPoint(e);
                       int i = begin(th, "robot.setJointValues(trajectory)"); setEff(i); robot->setJointValues(t, 0.0f); end(i); break; }
            case 11: { int i = begin(th, "lock{applyJointValues}"); { WriteLockPtr l = robot->getWriteLock(); for (size_t k = 0; k < p.idx.size(); k++) joints[p.idx[k]]->setJointValueNoUpdate(v[k]); robot->applyJointValues(); } setEff(i); end(i); break; }
            case 14: { Eigen::Matrix4f m = gposes[p.gp]; int i = begin(th, "robot.setGlobalPoseForRobotNode"); { sim::NoPreempt np; ops[i].rel = p.node; ops[i].target = p.gp; } robot->setGlobalPoseForRobotNode(nodes[p.node], m); end(i); break; }
            case 15: { Eigen::Matrix4f m = gposes[p.gp]; int i = begin(th, "robot.setGlobalPositionForRobotNode"); { sim::NoPreempt np; ops[i].rel = p.node; ops[i].relPos = true; ops[i].target = p.gp; } robot->setGlobalPositionForRobotNode(nodes[p.node], m.block<3, 1>(0, 3)); end(i); break; }
            default: { Eigen::Matrix4f m = gposes[p.gp]; int i = begin(th, "robot.setGlobalPose(m,true)"); { sim::NoPreempt np; ops[i].gp = p.gp; } robot->setGlobalPose(m, true); end(i); break; }
        }
        sim::probe("op.update");
        return;
    }
    Read r;
    switch (p.kind)
    {
        case 20: case 21: { int i = begin(th, "node.getGlobalPose"); Eigen::Matrix4f m = nodes[p.node]->getGlobalPose(); r.poses.push_back(std::make_pair(p.node, m)); end(i, &r); break; }
        case 22: { int i = begin(th, "node.getPoseInRootFrame"); Eigen::Matrix4f m = nodes[p.node]->getPoseInRootFrame(); r.rootPoses.push_back(std::make_pair(p.node, m)); end(i, &r); break; }
        case 23: { int j = p.idx[0]; int i = begin(th, "node.getJointValue"); float f = joints[j]->getJointValue(); r.values.push_back(std::make_pair(j, f)); end(i, &r); break; }
        case 24: { int i = begin(th, "robot.getGlobalPose"); Eigen::Matrix4f m = robot->getGlobalPose(); r.poses.push_back(std::make_pair(-1, m)); end(i, &r); break; }
        case 25: { int i = begin(th, "nodeset.getJointValues"); std::vector<float> f = rns->getJointValues(); { sim::NoPreempt np; for (size_t k = 0; k < f.size(); k++) r.values.push_back(std::make_pair(p.idx[k], f[k])); } end(i, &r); break; }
        case 26: { int i = begin(th, "nodeset.getJointValuesEigen"); Eigen::VectorXf f = rns->getJointValuesEigen(); { sim::NoPreempt np; for (int k = 0; k < f.size(); k++) r.values.push_back(std::make_pair(p.idx[k], f[k])); } end(i, &r); break; }
        case 27: { int i = begin(th, "robot.getConfig"); RobotConfigPtr c = robot->getConfig(); { sim::NoPreempt np; for (size_t k = 0; k < joints.size(); k++) r.values.push_back(std::make_pair((int)k, c->getConfig(joints[k]->getName()))); } end(i, &r); break; }
        case 28: { int i = begin(th, "nodeset.getJointValueMap"); std::map<std::string, float> f = rns->getJointValueMap(); { sim::NoPreempt np; for (int k : p.idx) r.values.push_back(std::make_pair(k, f[joints[k]->getName()])); } end(i, &r); break; }
        case 29:
        {
            int i = begin(th, "robot.clone"); RobotPtr c = robot->clone("copy");
            {
                sim::NoPreempt np;
                for (size_t k = 0; k < joints.size(); k++) r.values.push_back(std::make_pair((int)k, c->getRobotNode(joints[k]->getName())->getJointValue()));
                for (size_t k = 0; k < nodes.size(); k++) r.poses.push_back(std::make_pair((int)k, c->getRobotNode(nodes[k]->getName())->getGlobalPose()));
                r.poses.push_back(std::make_pair(-1, c->getGlobalPose()));
            }
            end(i, &r); sim::probe("op.clone"); break;
        }
        case 32:
        {
            // a copy of the last joint of the arm and all below it
            int i = begin(th, "robot.extractSubPart"); RobotPtr c = robot->extractSubPart(nodes[p.node], "part", "part", true, true);
            {
                sim::NoPreempt np;
                for (size_t k = 0; k < joints.size(); k++) if (c->hasRobotNode(joints[k]->getName())) r.values.push_back(std::make_pair((int)k, c->getRobotNode(joints[k]->getName())->getJointValue()));
            }
            end(i, &r); sim::probe("op.extract"); break;
        }
        case 33: { int i = begin(th, "node.getPositionInRootFrame"); Eigen::Vector3f m = nodes[p.node]->getPositionInRootFrame(); r.rootPos.push_back(std::make_pair(p.node, m)); end(i, &r); break; }
        case 34:
        {
            int n = -1; for (size_t k = 0; k < p.idx.size(); k++) if (joints[p.idx[k]]->isRotationalJoint()) n = nodeIdx(joints[p.idx[k]]->getName());
            if (n < 0 || p.node % 2) { int i = begin(th, "robot.getGlobalPoseForRobotNode"); Eigen::Matrix4f m = robot->getGlobalPoseForRobotNode(nodes[p.node], gposes[0]); r.forNode.push_back(std::make_pair(p.node, m)); end(i, &r); }
            else { boost::shared_ptr<RobotNodeRevolute> rn = boost::dynamic_pointer_cast<RobotNodeRevolute>(nodes[n]); int i = begin(th, "node.getJointRotationAxis"); Eigen::Vector3f m = rn->getJointRotationAxis(nodes[0]); r.axes.push_back(std::make_pair(n, m)); end(i, &r); }
            break;
        }
        case 35: case 36:
        {
            // one node (or the robot) seen from another
            int a = p.kind == 35 || p.val[0] > 0 ? p.node : -1, b = p.val[0] < -1 && a >= 0 ? -1 : nodeIdx(joints[p.idx[0]]->getName());
            SceneObjectPtr oa = robot, ob = robot; if (a >= 0) oa = nodes[a]; if (b >= 0) ob = nodes[b];
            bool from = p.val.back() > 0;
            int i = begin(th, from ? "getTransformationFrom" : "getTransformationTo");
            Eigen::Matrix4f m = from ? ob->getTransformationFrom(oa) : oa->getTransformationTo(ob);
            r.between.push_back(std::make_pair(std::make_pair(a, b), m)); end(i, &r); sim::probe("op.transformation"); break;
        }
        case 37:
        {
            int w = p.val[0] > 0.5 ? p.set : p.val[0] > -1 ? -1 : -2;
            int i = begin(th, "getCoM"); Eigen::Vector3f c = w >= 0 ? rns->getCoM() : w == -1 ? robot->getCoMGlobal() : robot->getCoMLocal();
            r.com.push_back(std::make_pair(w, c)); end(i, &r); sim::probe("op.com"); break;
        }
        case 38:
        {
            RobotConfigPtr c; { sim::NoPreempt np; c.reset(new RobotConfig(robot, "c")); }
            int i = begin(th, "nodeset.getJointValues(config)"); rns->getJointValues(c);
            { sim::NoPreempt np; for (int k : p.idx) r.values.push_back(std::make_pair(k, c->getConfig(joints[k]->getName()))); } end(i, &r); break;
        }
        default:
        {
            int i = begin(th, "readlock{all}");
            {
                ReadLockPtr l = robot->getReadLock();
                for (size_t k = 0; k < joints.size(); k++) { float f = joints[k]->getJointValue(); r.values.push_back(std::make_pair((int)k, f)); }
                for (size_t k = 0; k < nodes.size(); k++) { Eigen::Matrix4f m = nodes[k]->getGlobalPose(); r.poses.push_back(std::make_pair((int)k, m)); }
                Eigen::Matrix4f m = robot->getGlobalPose(); r.poses.push_back(std::make_pair(-1, m));
            }
            end(i, &r); break;
        }
    }
    sim::probe("op.read");
}
static void run()
{
    int k = sim::rnd(NR);
    robot = g_robot[k]; ref = g_ref[k];
    std::vector<RobotNodePtr> all = robot->getRobotNodes();
    for (auto& n : all) { nodes.push_back(n); refNodes.push_back(ref->getRobotNode(n->getName())); if (n->isRotationalJoint() || n->isTranslationalJoint()) { joints.push_back(n); refJoints.push_back(refNodes.back()); } }
    auto jidx = [&](RobotNodePtr n) { for (size_t i = 0; i < joints.size(); i++) if (joints[i] == n) return (int)i; return -1; };
    for (auto n : {"Arm", "Branch", "Low"}) if (robot->hasRobotNodeSet(n)) { sets.push_back(robot->getRobotNodeSet(n)); setIdx.push_back({}); for (auto& m : sets.back()->getAllRobotNodes()) setIdx.back().push_back(jidx(m)); }
    if (k == 3) { leader = jidx(robot->getRobotNode("J0")); follower = jidx(robot->getRobotNode("B1")); followFactor = -0.7f; followLo = joints[follower]->getJointLimitLo(); followHi = joints[follower]->getJointLimitHi(); }
    if (sim::chance(0.4)) pool = sim::rint(1, 3);
    pools.resize(joints.size());
    gposes.reserve(100000); gposes.push_back(randomPose(300));
    State s0; s0.gp = 0;
    robot->setGlobalPose(gposes[0]);
    std::map<RobotNodePtr, float> m; for (size_t j = 0; j < joints.size(); j++) { s0.q.push_back(rv(j)); m[joints[j]] = s0.q[j]; }
    robot->setJointValues(m);
    int threads = sim::rint(2, 4), bias = sim::pick(*new std::vector<int>{30, 50, 70});
    std::vector<std::vector<Plan>> plans(threads);
    int total = 0;
    for (auto& pl : plans) { int n = sim::rint(1, threads > 3 ? 4 : 6); bool polls = sim::chance(0.25); int only = sim::chance(0.5) ? 23 : sim::chance(0.5) ? 20 : 0;   // a thread that does nothing but read single values
        for (int i = 0; i < n; i++) pl.push_back(polls ? plan(0, only ? only : std::vector<int>{20, 22, 23, 24, 33}[sim::rnd(5)]) : plan(bias)); total += n; }
    ops.reserve(64);
    sim::setStepLimit(60000000, "robot updates and reads");
    for (int t = 0; t < threads; t++) sim::spawn([t, &plans] { for (auto& p : plans[t]) exec(t, p); }, "client");
    sim::joinAll();
    sim::clearStepLimit();
    sim::NoPreempt np;
    // quiescent read of everything: all nodes must show the final configuration
    {
        int i = begin(99, "final"); Read r;
        for (size_t j = 0; j < joints.size(); j++) r.values.push_back(std::make_pair((int)j, joints[j]->getJointValue()));
        for (size_t j = 0; j < nodes.size(); j++) r.poses.push_back(std::make_pair((int)j, nodes[j]->getGlobalPose()));
        r.poses.push_back(std::make_pair(-1, robot->getGlobalPose()));
        end(i, &r);
        // the geometry is where the nodes are
        for (auto& n : nodes)
            if (n->getCollisionModel() && !near(n->getCollisionModel()->getGlobalPose(), n->getGlobalPose(), 2e-2))
                sim::violation("geometry-behind", "collision model of node %s is not at the pose of the node after all updates", n->getName().c_str());
    }
    int overlaps = 0;
    for (auto& a : ops) for (auto& b : ops) if (a.thread < b.thread && a.inv < b.res && b.inv < a.res && (a.set.size() || a.gp >= 0 || a.rel >= 0 || b.set.size() || b.gp >= 0 || b.rel >= 0)) overlaps++;
    sim::probe("overlapping-update-pairs", overlaps);
    if (overlaps) sim::nontrivial();
    for (auto& o : ops) { sim::event(o.name, o.thread); for (auto& v : o.rd.values) sim::eventf(v.second); for (auto& p : o.rd.poses) sim::eventf(p.second(0, 3)); }
    std::string h; for (auto& o : ops) { char b[120]; snprintf(b, sizeof b, "%s[T%d %llu-%llu] ", o.name, o.thread, (unsigned long long)o.inv, (unsigned long long)o.res); h += b; }
    sim::sample("%d joints, %d threads: %.900s", (int)joints.size(), threads, h.c_str());
    // first: is every single operation explicable by some reachable state? (gives a better message)
    if (!lin(0, s0))
    {
        for (auto& o : ops) if (o.set.empty() && o.gp < 0 && o.rel < 0) { std::string d; for (auto& v : o.rd.values) d += " q" + std::to_string(v.first) + "=" + std::to_string(v.second); sim::log("%s: %zu poses%s", o.name, o.rd.poses.size(), d.c_str()); }
            else { std::string d; for (auto& v : o.set) d += " q" + std::to_string(v.first) + ":=" + std::to_string(v.second); sim::log("%s: gp %d rel %d%s", o.name, o.gp, o.rel, d.c_str()); }
        sim::violation("not-linearizable", "no order of the updates explains what was read; history: %s", h.c_str());
    }
}
sim::Harness sim::harness = {"C01", setup, run};
