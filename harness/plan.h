// Planning problems, an independent judge of their solutions and fault hooks; shared by the planning checks.
#pragma once
#include "common.h"
#include <MotionPlanning/Saba.h>
#include <MotionPlanning/CSpace/CSpaceSampled.h>
#include <MotionPlanning/CSpace/CSpaceNode.h>
#include <MotionPlanning/CSpace/CSpaceTree.h>
#include <MotionPlanning/CSpace/CSpacePath.h>
#include <MotionPlanning/CSpace/ConfigurationConstraint.h>
#include <MotionPlanning/Planner/Rrt.h>
#include <MotionPlanning/Planner/BiRrt.h>
#include <MotionPlanning/Planner/GraspIkRrt.h>
#include <VirtualRobot/IK/AdvancedIKSolver.h>
#include <VirtualRobot/Grasping/GraspSet.h>
#include <VirtualRobot/Grasping/Grasp.h>
#include <VirtualRobot/Random.h>
#include <stdexcept>
#include <new>

namespace plan
{
    using namespace common;
    using namespace Saba;
    struct Model { RobotPtr robot, ref; };
    static std::vector<Model> g_models;
    inline void setupModels()
    {
        registerStub();
        for (int k = 0; k < 4; k++)
        {
            RobotSpec s; s.mass = false; s.name = s.type = "Arm" + std::to_string(k);
            s.planar = k != 2; s.n = k == 0 ? 2 : k == 3 ? 2 : 3; s.limitless0 = k == 3; s.limit = k == 1 ? 1.5 : 2.5;
            std::string xml = robotXML(s, [] { return 0.37; });
            Model m; m.robot = RobotIO::createRobotFromString(xml, "");
            CollisionCheckerPtr cc(new CollisionChecker());
            m.ref = m.robot->clone(s.name + "ref", cc);
            g_models.push_back(m);
        }
    }
    typedef Eigen::VectorXf Cfg;
    struct Ball { Cfg c; float r; };
    struct Boom : std::runtime_error { Boom() : std::runtime_error("injected failure of a callback") {} };

    // The problem: joints, limits, forbidden balls in joint space and obstacles in the workspace
    struct Problem
    {
        int model; RobotPtr robot; RobotNodeSetPtr rns; unsigned dim;
        std::vector<float> lo, hi; std::vector<bool> wrap;
        Cfg weights; bool weighted = false;
        std::vector<Ball> balls; bool ballsOn = true, ballMetric = false;
        std::vector<Eigen::Matrix4f> boxPose; std::vector<Eigen::Vector3f> boxSize;
        SceneObjectSetPtr obst; CDManagerPtr cdm;
        // reference
        RobotPtr ref; RobotNodeSetPtr refRns; SceneObjectSetPtr refObst;
        float dcd, step; bool onlyStartGoal = false; Cfg s0, g0;
        float dd(unsigned i, float a, float b) const { double d = (double)b - a; if (wrap[i]) d = std::remainder(d, 2 * M_PI); return d; }
        double dist(const Cfg& a, const Cfg& b, bool w) const { double r = 0; for (unsigned i = 0; i < dim; i++) { double d = dd(i, a[i], b[i]) * (w && weighted ? weights[i] : 1.0); r += d * d; } return std::sqrt(r); }
        bool ballFree(const Cfg& c) const
        {
            if (onlyStartGoal) return dist(c, s0, false) < 1e-3 || dist(c, g0, false) < 1e-3;
            if (ballsOn) for (auto& b : balls) if (dist(b.c, c, ballMetric) < b.r) return false;
            return true;
        }
        // lone caller's answer on private copies
        bool collides(const Cfg& c) const
        {
            if (boxPose.empty()) return false;
            for (unsigned i = 0; i < dim; i++) refRns->getNode(i)->setJointValueNoUpdate(c[i]);
            ref->applyJointValues();
            return ref->getCollisionChecker()->checkCollision(ref->getRobotNodeSet("ArmCol"), refObst);
        }
        bool valid(const Cfg& c) const { return ballFree(c) && !collides(c); }
        Cfg random() const { Cfg c(dim); for (unsigned i = 0; i < dim; i++) c[i] = sim::rreal(lo[i], hi[i]); return c; }
        bool randomValid(Cfg& c, int tries = 60) const { while (tries--) { c = random(); if (valid(c)) return true; } return false; }
    };
    // dcd/step set by caller
    inline void makeScene(Problem& s, bool boxes, bool balls, int model = -1)
    {
        s.model = model >= 0 ? model : (int)sim::rnd(g_models.size()); s.robot = g_models[s.model].robot; s.ref = g_models[s.model].ref;
        s.rns = s.robot->getRobotNodeSet("Arm"); s.refRns = s.ref->getRobotNodeSet("Arm"); s.dim = s.rns->getSize();
        bool trans = false;
        for (unsigned i = 0; i < s.dim; i++) { RobotNodePtr n = s.rns->getNode(i); s.lo.push_back(n->getJointLimitLo()); s.hi.push_back(n->getJointLimitHi()); s.wrap.push_back(n->isLimitless()); trans |= n->isTranslationalJoint(); }
        s.weights.setOnes(s.dim);
        if (trans || sim::chance(0.25)) { s.weighted = true; for (unsigned i = 0; i < s.dim; i++) s.weights[i] = s.rns->getNode(i)->isTranslationalJoint() ? 0.01f : sim::pick(*new std::vector<float>{0.5f, 1.f, 2.f, 3.f}); }
        s.dcd = sim::rreal(0.05, 0.2); s.step = s.dcd * (sim::chance(0.3) ? sim::rreal(4, 12) : sim::rreal(1.06, 4.0));
        s.ballMetric = s.weighted && sim::chance(0.5);
        if (balls)
        {
            int n = sim::rint(1, s.dim == 2 ? 8 : 14);
            for (int i = 0; i < n; i++) { Ball b; b.c = s.random(); b.r = s.dcd * (sim::chance(0.25) ? sim::rreal(0.55, 1.2) : sim::rreal(0.55, 6)); if (trans && !s.ballMetric) b.r *= 3; s.balls.push_back(b); }
        }
        s.cdm.reset(new CDManager(s.robot->getCollisionChecker()));
        if (boxes)
        {
            int n = sim::rint(1, 3);
            s.obst.reset(new SceneObjectSet("obstacles", s.robot->getCollisionChecker())); s.refObst.reset(new SceneObjectSet("obstacles", s.ref->getCollisionChecker()));
            for (int i = 0; i < n; i++)
            {
                Eigen::Vector3f z(sim::rreal(15, 80), sim::rreal(15, 80), 100); Eigen::Matrix4f p = Eigen::Matrix4f::Identity();
                double a = sim::rreal(-3, 3), r = sim::rreal(110, 300); p(0, 3) = r * cos(a); p(1, 3) = r * sin(a); if (s.model == 2) p(2, 3) = sim::rreal(-150, 150);
                s.boxPose.push_back(p); s.boxSize.push_back(z);
                for (int q = 0; q < 2; q++)
                {
                    ObstaclePtr o = Obstacle::createBox(z[0], z[1], z[2], VisualizationFactory::Color::Gray(), "", q ? s.ref->getCollisionChecker() : s.robot->getCollisionChecker());
                    o->setGlobalPose(p); (q ? s.refObst : s.obst)->addSceneObject(o);
                }
            }
            s.cdm->addCollisionModelPair(s.robot->getRobotNodeSet("ArmCol"), s.obst);
        }
    }

    // What happens at the validity checks of one search space.
    struct Hook
    {
        Problem* scene; MotionPlanner* planner = nullptr;
        bool forceFree = false, dead = false;        // no balls / nothing is valid any more
        long checks = 0, planChecks = 0;
        long throwAt = -1, stopAt = -1; bool oom = false, odd = false; double slowP = 0; uint64_t slowNs = 0; bool stopFired = false, throwFired = false;
        std::function<void()> onCheck;
        void arm() { planChecks = 0; stopFired = throwFired = false; }
        void disarm() { throwAt = stopAt = -1; slowP = 0; onCheck = nullptr; }
        bool check(const Cfg& c)
        {
            checks++; planChecks++;
            if (slowP > 0 && sim::chance(slowP)) { sim::fault::note("slow-check"); sim::sleepNs(slowNs); }
            if (onCheck) onCheck();
            if (planChecks == stopAt && planner) { stopFired = true; sim::fault::note("stop-request"); planner->stopExecution(); }
            if (planChecks == throwAt) { throwFired = true; sim::fault::note(oom ? "callback-out-of-memory" : "callback-throws"); if (oom) throw std::bad_alloc(); if (odd) throw 42; throw Boom(); }
            if (dead) return false;
            return forceFree || scene->ballFree(c);
        }
    };
    struct Constraint : ConfigurationConstraint
    {
        Hook* h; Constraint(unsigned d, Hook* k) : ConfigurationConstraint(d), h(k) {}
        bool isValid(const Cfg& c) override { return h->check(c); }
    };
    inline CSpaceSampledPtr makeSpace(Problem& s, Hook* h, unsigned nodes)
    {
        CSpaceSampledPtr c(new CSpaceSampled(s.robot, s.cdm, s.rns, nodes));
        c->setSamplingSizeDCD(s.dcd); c->setSamplingSize(s.step);
        if (s.weighted) c->setMetricWeights(s.weights);
        c->addConstraintCheck(ConfigurationConstraintPtr(new Constraint(s.dim, h)));
        return c;
    }
    // Inverse kinematics for the grasp planner: hands out configurations of a pool, some of them not valid, or nothing
    struct StubIk : AdvancedIKSolver
    {
        Hook* h; std::vector<Cfg> pool, given;
        StubIk(RobotNodeSetPtr r, Hook* k) : AdvancedIKSolver(r), h(k) {}
        bool solve(const Eigen::Matrix4f&, CartesianSelection = All, int = 1) override { return false; }
        GraspPtr sampleSolution(ManipulationObjectPtr, GraspSetPtr set, CartesianSelection = All, bool = false, int = 1) override
        {
            h->check(Cfg::Zero(rns->getSize()));      // a place for stop requests and failures
            if (!set->getSize() || sim::chance(0.3)) return GraspPtr();
            GraspPtr g = set->getGrasp(sim::rnd(set->getSize()));
            Cfg c; if (pool.empty() || sim::chance(0.3)) c = h->scene->random(); else c = pool[sim::rnd(pool.size())];
            given.push_back(c); rns->setJointValues(c); return g;
        }
    };
    struct Modes { bool bi = false, grasp = false; Rrt::RrtMethod a, b; float pGoal, ext; bool connectOnly() const { return a == Rrt::eConnect && (!bi || b == Rrt::eConnect); } };
    inline Modes randomModes(const Problem& s)
    {
        Modes m; m.bi = sim::chance(0.5); Rrt::RrtMethod k[] = {Rrt::eConnect, Rrt::eConnect, Rrt::eExtend, Rrt::eConnectCompletePath};
        m.a = k[sim::rnd(4)]; m.b = k[sim::rnd(4)]; m.pGoal = sim::rreal(0.05, 0.6); m.ext = sim::chance(0.6) ? -1 : s.step * sim::rreal(0.5, 4); return m;
    }
    typedef boost::shared_ptr<StubIk> StubIkPtr;
    inline std::string modeStr(const Modes& m) { static const char* n[] = {"extend", "connect", "complete"}; if (m.grasp) return "GraspIkRrt"; return std::string(m.bi ? "BiRrt " : "Rrt ") + n[m.a] + (m.bi ? std::string("/") + n[m.b] : ""); }
    inline boost::shared_ptr<Rrt> makePlanner(const Modes& m, CSpaceSampledPtr c)
    {
        if (m.bi) return boost::shared_ptr<Rrt>(new BiRrt(c, m.a, m.b, m.ext));
        return boost::shared_ptr<Rrt>(new Rrt(c, m.a, m.pGoal, m.ext));
    }
    inline boost::shared_ptr<Rrt> makeGraspPlanner(const Modes& m, CSpaceSampledPtr c, Problem& s, Hook* h, StubIkPtr& ik)
    {
        ik.reset(new StubIk(s.rns, h)); { Cfg q; for (int i = 0; i < 3; i++) if (s.randomValid(q)) ik->pool.push_back(q); }
        ManipulationObjectPtr o(new ManipulationObject("object", VisualizationNodePtr(), CollisionModelPtr(), SceneObject::Physics(), s.robot->getCollisionChecker()));
        GraspSetPtr gs(new GraspSet("set", "Arm", "Hand")); int n = sim::rint(0, 4);
        for (int i = 0; i < n; i++) gs->addGrasp(GraspPtr(new Grasp("grasp" + std::to_string(i), "Arm", "Hand", Eigen::Matrix4f::Identity())));
        return boost::shared_ptr<Rrt>(new GraspIkRrt(c, o, ik, gs, m.pGoal));
    }
    inline std::string cstr(const Cfg& c) { std::stringstream s; for (int i = 0; i < c.rows(); i++) s << (i ? "," : "(") << c[i]; s << ")"; return s.str(); }

    // The judge: geometry only, knows nothing of how the path was found.  run: longest tolerated invalid stretch
    inline void judge(const Problem& s, const std::vector<Cfg>& p, const Cfg& start, const Cfg& goal, double tolRun, double maxStep, const char* desc, bool checkGoal = true)
    {
        if (p.empty()) sim::violation("empty-path", "the path has no points (%s)", desc);
        for (size_t k = 0; k < p.size(); k++)
        {
            if ((unsigned)p[k].rows() != s.dim) sim::violation("path-dimension", "point %zu has %d values instead of %u (%s)", k, (int)p[k].rows(), s.dim, desc);
            for (unsigned i = 0; i < s.dim; i++) if (!(p[k][i] >= s.lo[i] - 1e-4 && p[k][i] <= s.hi[i] + 1e-4)) sim::violation("outside-limits", "point %zu of %zu: joint %u is %g, limits %g..%g (%s)", k, p.size(), i, p[k][i], s.lo[i], s.hi[i], desc);
        }
        if (s.dist(p.front(), start, false) > 1e-5) sim::violation("wrong-start", "the path starts at %s instead of %s (%s)", cstr(p.front()).c_str(), cstr(start).c_str(), desc);
        if (checkGoal && s.dist(p.back(), goal, false) > 1e-5) sim::violation("wrong-goal", "the path ends at %s instead of %s (%s)", cstr(p.back()).c_str(), cstr(goal).c_str(), desc);
        double run = 0, prevBad = -1, pos = 0;
        if (!s.valid(p.front()) || !s.valid(p.back())) sim::violation("end-invalid", "an end of the path is not valid (%s)", desc);
        for (size_t k = 0; k + 1 < p.size(); k++)
        {
            double L = s.dist(p[k], p[k + 1], true);
            if (L > maxStep) sim::violation("long-step", "the step from point %zu of %zu is %g long, resolution %g (%s)", k, p.size(), L, maxStep, desc);
            int n = std::max(1, (int)std::ceil(L / (s.dcd / 12)));
            for (int j = 1; j <= n; j++)
            {
                Cfg q(s.dim); for (unsigned i = 0; i < s.dim; i++) q[i] = p[k][i] + s.dd(i, p[k][i], p[k + 1][i]) * j / n;
                double at = pos + L * j / n;
                if (s.valid(q)) { prevBad = -1; run = 0; continue; }
                if (prevBad < 0) prevBad = at;
                run = at - prevBad;
                if (run > tolRun) sim::violation("path-invalid", "the path runs through a forbidden stretch longer than %g near %s between points %zu and %zu of %zu, collision checks are promised every %g (%s)", run, cstr(q).c_str(), k, k + 1, p.size(), s.dcd, desc);
            }
            pos += L;
        }
    }
    inline double tolRun(const Problem& s, bool connectOnly) { return s.dcd * (connectOnly ? 1.01 : 1.1) + 1e-4; }
    inline double maxStep(const Problem& s) { return s.step * 1.051 + s.dcd * 1.01 + 1e-4; }
}
