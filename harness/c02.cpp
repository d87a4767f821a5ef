// C02: collision, distance and validity answers are those of the geometry, whoever else is asking.
#include "plan.h"
using namespace plan;
static std::vector<RobotPtr> g_deep;
static void setup() { setupModels(); }

// ---- the oracle: triangles by brute force, no acceleration structure, no history ----
typedef Eigen::Vector3d V3;
struct Tri { V3 p[3]; };
typedef std::vector<Tri> Soup;
static double clamp01(double x) { return x < 0 ? 0 : x > 1 ? 1 : x; }
static double segSeg2(const V3& p1, const V3& q1, const V3& p2, const V3& q2)
{
    V3 d1 = q1 - p1, d2 = q2 - p2, r = p1 - p2; double a = d1.dot(d1), e = d2.dot(d2), f = d2.dot(r), c = d1.dot(r), b = d1.dot(d2), den = a * e - b * b, s = den > 1e-12 ? clamp01((b * f - c * e) / den) : 0, t = (b * s + f) / e;
    if (t < 0) { t = 0; s = clamp01(-c / a); } else if (t > 1) { t = 1; s = clamp01((b - c) / a); }
    return (p1 + d1 * s - p2 - d2 * t).squaredNorm();
}
static double ptTri2(const V3& p, const Tri& t)
{
    V3 ab = t.p[1] - t.p[0], ac = t.p[2] - t.p[0], n = ab.cross(ac); double nn = n.squaredNorm(); V3 ap = p - t.p[0];
    double v = ap.cross(ac).dot(n) / nn, w = ab.cross(ap).dot(n) / nn;
    if (v >= 0 && w >= 0 && v + w <= 1) { double h = ap.dot(n); return h * h / nn; }
    double m = 1e300; for (int i = 0; i < 3; i++) { V3 a = t.p[i], d = t.p[(i + 1) % 3] - a; double s = clamp01((p - a).dot(d) / d.squaredNorm()); m = std::min(m, (a + d * s - p).squaredNorm()); }
    return m;
}
static bool segHitsTri(const V3& a, const V3& b, const Tri& t)
{
    V3 n = (t.p[1] - t.p[0]).cross(t.p[2] - t.p[0]); double da = (a - t.p[0]).dot(n), db = (b - t.p[0]).dot(n); if (da * db > 0 || da == db) return false;
    V3 x = a + (b - a) * (da / (da - db)); double nn = n.squaredNorm(); V3 ap = x - t.p[0]; double v = ap.cross(t.p[2] - t.p[0]).dot(n) / nn, w = (t.p[1] - t.p[0]).cross(ap).dot(n) / nn;
    return v >= 0 && w >= 0 && v + w <= 1;
}
static double triTri2(const Tri& a, const Tri& b)
{
    for (int i = 0; i < 3; i++) if (segHitsTri(a.p[i], a.p[(i + 1) % 3], b) || segHitsTri(b.p[i], b.p[(i + 1) % 3], a)) return 0;
    double m = 1e300;
    for (int i = 0; i < 3; i++) { m = std::min(m, std::min(ptTri2(a.p[i], b), ptTri2(b.p[i], a))); for (int j = 0; j < 3; j++) m = std::min(m, segSeg2(a.p[i], a.p[(i + 1) % 3], b.p[j], b.p[(j + 1) % 3])); }
    return m;
}
static double soupDist(const Soup& a, const Soup& b) { double m = 1e300; for (auto& x : a) for (auto& y : b) { m = std::min(m, triTri2(x, y)); if (m == 0) return 0; } return std::sqrt(m); }
static Soup shifted(Soup s, const V3& d) { for (auto& t : s) for (auto& p : t.p) p += d; return s; }
// 0 apart, 1 colliding, -1 too close to call
static int soupHit(const Soup& a, const Soup& b, double d)
{
    if (d > 0) return d < 0.1 ? -1 : 0;
    for (int i = 0; i < 6; i++) { V3 o = V3::Zero(); o[i / 2] = i & 1 ? 0.1 : -0.1; if (soupDist(shifted(a, o), b) > 0) return -1; }
    return 1;
}
static Soup soup(TriMeshModelPtr m, const Eigen::Matrix4f& pose)
{
    Soup s; Eigen::Matrix4d P = pose.cast<double>();
    for (auto& f : m->faces) { Tri t; unsigned id[3] = {f.id1, f.id2, f.id3}; for (int k = 0; k < 3; k++) t.p[k] = (P * m->vertices[id[k]].cast<double>().homogeneous()).head(3); s.push_back(t); }
    return s;
}
// ---- a scene of bodies: links of the arm and boxes ----
struct Box { Eigen::Vector3f size; Eigen::Matrix4f pose; TriMeshModelPtr mesh; };
struct World
{
    Problem* s; std::vector<Box> boxes; Cfg q; std::vector<TriMeshModelPtr> linkMesh; std::vector<std::string> linkName; std::vector<std::string> allName; std::vector<TriMeshModelPtr> allMesh;
    // FK by the reference robot
    std::vector<Soup> links(const Cfg& c) const { std::vector<Soup> r; for (unsigned i = 0; i < s->dim; i++) s->refRns->getNode(i)->setJointValueNoUpdate(c[i]); s->ref->applyJointValues(); for (size_t i = 0; i < linkName.size(); i++) r.push_back(soup(linkMesh[i], s->ref->getRobotNode(linkName[i])->getGlobalPose())); return r; }
    std::vector<Soup> body(const Cfg& c) const { links(c); std::vector<Soup> r; for (size_t i = 0; i < allName.size(); i++) r.push_back(soup(allMesh[i], s->ref->getRobotNode(allName[i])->getGlobalPose())); return r; }
    Soup box(int i) const { return soup(boxes[i].mesh, boxes[i].pose); }
};
static Eigen::Matrix4f randomPose(bool planar)
{
    Eigen::Matrix4f p = Eigen::Matrix4f::Identity(); double a = sim::rreal(-3, 3), r = sim::rreal(0, 320); p(0, 3) = r * cos(a); p(1, 3) = r * sin(a); p(2, 3) = sim::rreal(-60, 60) * (planar ? 1 : 3);
    if (sim::chance(0.7)) p.block<3, 3>(0, 0) = (Eigen::AngleAxisf(sim::rreal(-3, 3), Eigen::Vector3f::UnitX()) * Eigen::AngleAxisf(sim::rreal(-3, 3), Eigen::Vector3f::UnitZ())).toRotationMatrix();
    return p;
}
static void makeWorld(World& w, Problem& s, int n)
{
    w.s = &s; w.q = Cfg::Zero(s.dim);
    SceneObjectSetPtr set = s.ref->getRobotNodeSet("ArmCol");
    for (auto& nd : s.ref->getRobotNodeSet("ArmCol")->getAllRobotNodes()) if (nd->getCollisionModel()) { w.linkName.push_back(nd->getName()); w.linkMesh.push_back(nd->getCollisionModel()->getTriMeshModel()); }
    for (auto& nd : s.ref->getRobotNodes()) if (nd->getCollisionModel()) { w.allName.push_back(nd->getName()); w.allMesh.push_back(nd->getCollisionModel()->getTriMeshModel()); }
    for (int i = 0; i < n; i++)
    {
        Box b; b.size = Eigen::Vector3f(sim::rreal(15, 90), sim::rreal(15, 90), sim::rreal(15, 150)); b.pose = randomPose(s.model != 2); b.mesh.reset(new TriMeshModel()); addBox(b.mesh, b.size[0], b.size[1], b.size[2]); w.boxes.push_back(b);
    }
}
static std::vector<ObstaclePtr> makeObstacles(const World& w, CollisionCheckerPtr cc)
{
    std::vector<ObstaclePtr> r; for (auto& b : w.boxes) { ObstaclePtr o = Obstacle::createBox(b.size[0], b.size[1], b.size[2], VisualizationFactory::Color::Gray(), "", cc); o->setGlobalPose(b.pose); r.push_back(o); } return r;
}
static void wrongHit(const char* what, bool got, double d, const char* desc) { sim::violation("wrong-collision", "%s: reported %s, the bodies are %s (distance %g) (%s)", what, got ? "colliding" : "free", got ? "apart" : "in collision", d, desc); }
static void checkHit(const char* what, bool got, int want, double d, const char* desc) { if (want < 0) { sim::probe("too-close-to-call"); return; } if (got != (want == 1)) wrongHit(what, got, d, desc); sim::probe(got ? "collisions" : "no-collisions"); sim::event(what, got); }
static void checkDist(const char* what, double got, double want, const char* desc) { if (std::fabs(got - want) > 0.02 + 1e-4 * want) sim::violation("wrong-distance", "%s: distance %g reported, it is %g (%s)", what, got, want, desc); sim::probe("distances"); sim::eventf(got); }
static const Soup pointSoup(const Eigen::Vector3f& p) { Tri t; t.p[0] = p.cast<double>(); t.p[1] = t.p[0] + V3(0, 1e-5, 0); t.p[2] = t.p[0] + V3(0, 0, 1e-5); return {t}; }

// ---- private scenes: own copies of robot and obstacles, own checker (internal mesh data may be shared) ----
struct Private { World w; SceneObjectSetPtr set; CollisionCheckerPtr cc; RobotPtr robot; RobotNodeSetPtr rns; std::vector<ObstaclePtr> obs; CSpaceSampledPtr space; char desc[200]; bool useSpace; CDManagerPtr cdm; };
// a new configuration, or one that was asked for before
static std::vector<Cfg> g_asked;
static Cfg pickConfig(const Problem& s) { sim::NoPreempt np; if (g_asked.size() && sim::chance(0.3)) return g_asked[g_asked.size() - 1 - sim::rnd(std::min<size_t>(g_asked.size(), 4))]; g_asked.push_back(s.random()); return g_asked.back(); }
static void privateQueries(Private& p, int n)
{
    VirtualRobot::PRNG64Bit().seed(sim::rnd()); Problem& s = *p.w.s; CollisionCheckerPtr cc = p.cc;
    RobotNodeSetPtr col = p.robot->getRobotNodeSet("ArmCol");
    for (int k = 0; k < n; k++)
    {
        std::vector<Soup> L; std::vector<Soup> B; std::vector<std::vector<double>> D;
        // pose the scene
        Cfg q = pickConfig(s);
        if (sim::chance(0.4)) { int b = sim::rnd(p.obs.size()); p.w.boxes[b].pose = randomPose(s.model != 2); p.obs[b]->setGlobalPose(p.w.boxes[b].pose); }
        // a body is given another safety margin
        if (sim::chance(0.1))
        {
            int b = sim::rnd(p.obs.size()); float m = sim::chance(0.3) ? 0 : sim::rreal(1, 12); CollisionModelPtr cm = p.obs[b]->getCollisionModel(); cm->inflateModel(m);
            sim::NoPreempt np; p.w.boxes[b].mesh = cm->getTriMeshModel()->clone(); sim::probe("inflated");
        }
        // the scene grows or shrinks
        if (p.set && sim::chance(0.08))
        {
            if (p.obs.size() > 1 && sim::chance(0.4)) { int b = sim::rnd(p.obs.size()); p.set->removeSceneObject(p.obs[b]); p.obs.erase(p.obs.begin() + b); p.w.boxes.erase(p.w.boxes.begin() + b); sim::probe("box-removed"); }
            else { Box nb; { sim::NoPreempt np; nb.size = Eigen::Vector3f(60, 35, 80); nb.pose = randomPose(s.model != 2); nb.mesh.reset(new TriMeshModel()); addBox(nb.mesh, 60, 35, 80); } ObstaclePtr o = Obstacle::createBox(60, 35, 80, VisualizationFactory::Color::Gray(), "", cc); o->setGlobalPose(nb.pose); p.set->addSceneObject(o); p.obs.push_back(o); p.w.boxes.push_back(nb); sim::probe("box-added"); }
        }
        p.rns->setJointValues(q);
        { sim::NoPreempt np; L = p.w.links(q); for (size_t b = 0; b < p.obs.size(); b++) B.push_back(p.w.box(b)); }
        auto dist = [&](int l, int b) { sim::NoPreempt np; return soupDist(L[l], B[b]); };
        auto hit = [&](int l, int b, double d) { sim::NoPreempt np; return soupHit(L[l], B[b], d); };
        auto allHit = [&](const std::vector<int>& bs, double& dm) { int r = 0; dm = 1e300; for (size_t l = 0; l < L.size(); l++) for (int b : bs) { double d = dist(l, b); dm = std::min(dm, d); int h = hit(l, b, d); if (h == 1) return 1; if (h < 0) r = -1; } return r; };
        int l = sim::rnd(L.size()), b = sim::rnd(B.size()); RobotNodePtr ln = p.robot->getRobotNode(p.w.linkName[l]); std::vector<int> all; for (size_t i = 0; i < B.size(); i++) all.push_back(i);
        SceneObjectSetPtr oset(new SceneObjectSet("obst", cc)); for (auto& o : p.obs) oset->addSceneObject(o);
        double d = 0; Eigen::Vector3f P1, P2; int i1, i2;
        switch (sim::rint(0, 12))
        {
            case 10: { bool fl = sim::chance(0.5); SceneObjectPtr r(p.robot), o(p.obs[b]); bool g = fl ? cc->checkCollision(r, o) : cc->checkCollision(o, r); { sim::NoPreempt np; L = p.w.body(q); } int h = allHit({b}, d); checkHit("robot against box", g, h, d, p.desc); break; }
            case 11: { bool fl = sim::chance(0.5); SceneObjectPtr r(p.robot), o(p.obs[b]); float g = fl ? cc->calculateDistance(r, o, P1, P2) : cc->calculateDistance(o, r, P1, P2); { sim::NoPreempt np; L = p.w.body(q); } d = 1e300; for (size_t x = 0; x < L.size(); x++) d = std::min(d, dist(x, b)); checkDist("robot to box", g, d, p.desc); if (d > 0.1) { sim::NoPreempt np; double e1 = soupDist(pointSoup(fl ? P2 : P1), B[b]); if (e1 > 0.05) sim::violation("wrong-points", "the nearest point of the box is %g away from it (%s)", e1, p.desc); } break; }
            case 12: { SceneObjectSetPtr x(new SceneObjectSet(sim::chance(0.5) ? "x" : "o", cc)); Box nb; nb.size = Eigen::Vector3f(40, 30, 50); { sim::NoPreempt np; nb.pose = randomPose(s.model != 2); nb.mesh.reset(new TriMeshModel()); addBox(nb.mesh, 40, 30, 50); } ObstaclePtr o = Obstacle::createBox(40, 30, 50, VisualizationFactory::Color::Gray(), "", cc); o->setGlobalPose(nb.pose); x->addSceneObject(o);
                bool g = p.cdm->isInCollision(x); float f = p.cdm->getDistance(x); double dm = 1e300; int h = 0; { sim::NoPreempt np; Soup X = soup(nb.mesh, nb.pose); for (auto* v : {&L, &B}) for (auto& y : *v) { double e = soupDist(X, y); dm = std::min(dm, e); int hh = soupHit(X, y, e); if (hh == 1) h = 1; else if (hh < 0 && !h) h = -1; } } checkHit("manager against another body", g, h, dm, p.desc); checkDist("manager to another body", f, dm, p.desc); break; }
            case 0: { bool g = cc->checkCollision(SceneObjectPtr(ln), SceneObjectPtr(p.obs[b])); d = dist(l, b); checkHit("link against box", g, hit(l, b, d), d, p.desc); break; }
            case 1: { bool g = cc->checkCollision(ln->getCollisionModel(), p.obs[b]->getCollisionModel()); d = dist(l, b); checkHit("model against model", g, hit(l, b, d), d, p.desc); break; }
            case 2: { bool g = cc->checkCollision(SceneObjectSetPtr(col), oset); int h = allHit(all, d); checkHit("arm against all boxes", g, h, d, p.desc); break; }
            case 3: { bool g = cc->checkCollision(SceneObjectPtr(p.obs[b]), SceneObjectSetPtr(col)); int h = allHit({b}, d); checkHit("box against arm", g, h, d, p.desc); break; }
            case 4: { float g = cc->calculateDistance(SceneObjectPtr(ln), SceneObjectPtr(p.obs[b]), P1, P2, &i1, &i2); d = dist(l, b); checkDist("link to box", g, d, p.desc); if (d > 0.1 && std::fabs((P1 - P2).norm() - d) > 0.05) sim::violation("wrong-points", "the nearest points are %g apart, the distance is %g (%s)", (P1 - P2).norm(), d, p.desc); if (d > 0.1) { sim::NoPreempt np; double e1 = soupDist(pointSoup(P1), L[l]), e2 = soupDist(pointSoup(P2), B[b]); if (e1 > 0.05 || e2 > 0.05) sim::violation("wrong-points", "the nearest points are %g and %g away from their bodies (%s)", e1, e2, p.desc); } break; }
            case 5: { float g = cc->calculateDistance(SceneObjectSetPtr(col), oset); allHit(all, d); d = 1e300; for (size_t x = 0; x < L.size(); x++) for (int y : all) d = std::min(d, dist(x, y)); checkDist("arm to all boxes", g, d, p.desc); break; }
            case 6: { bool g = p.cdm->isInCollision(); int h = allHit(all, d); checkHit("collision manager", g, h, d, p.desc); float f = p.cdm->getDistance(P1, P2, i1, i2); d = 1e300; for (size_t x = 0; x < L.size(); x++) for (int y : all) d = std::min(d, dist(x, y)); checkDist("collision manager", f, d, p.desc);
                if (d > 0.1 && d < 1e299) { sim::NoPreempt np; auto off = [&](const Eigen::Vector3f& pt, const std::vector<Soup>& S) { double m = 1e300; for (auto& x : S) m = std::min(m, soupDist(pointSoup(pt), x)); return m; }; double e = std::min(std::max(off(P1, L), off(P2, B)), std::max(off(P1, B), off(P2, L))); if (e > 0.05 || std::fabs((P1 - P2).norm() - d) > 0.05) sim::violation("wrong-points", "the nearest points of the collision manager are %g away from their bodies and %g apart at a distance of %g (%s)", e, (P1 - P2).norm(), d, p.desc); } break; }
            case 7: { float tol = sim::chance(0.4) ? 0 : std::exp(sim::rreal(0, 5)); Eigen::Vector3f pt = p.w.boxes[b].pose.block<3, 1>(0, 3) + Eigen::Vector3f(sim::rreal(-120, 120), sim::rreal(-120, 120), sim::rreal(-120, 120)); bool g = cc->checkCollision(p.obs[b]->getCollisionModel(), pt, tol); { sim::NoPreempt np; d = soupDist(pointSoup(pt), B[b]); } checkHit("box against sphere", g, std::fabs(d - tol) < 0.1 ? -1 : d < tol, d, p.desc); break; }
            default:
                if (p.useSpace)
                {
                    Cfg c = pickConfig(s);
                    std::vector<Soup> LC; { sim::NoPreempt np; LC = p.w.links(c); L = LC; }
                    int h = allHit(all, d); int before = p.space->performaceVars_collisionCheck;
                    bool g = p.space->isConfigValid(c); if (p.space->performaceVars_collisionCheck != before + 1) sim::violation("check-counter", "one validity query is counted as %d (%s)", p.space->performaceVars_collisionCheck - before, p.desc);
                    checkHit("validity in a copied space", !g, h, d, p.desc);
                    if (sim::chance(0.3)) { float f = p.space->calculateObstacleDistance(c); d = 1e300; for (size_t x = 0; x < L.size(); x++) for (int y : all) d = std::min(d, dist(x, y)); checkDist("distance in a copied space", f, d, p.desc); }
                }
                break;
        }
    }
}
// ---- one robot shared by several search spaces (or one space by several threads) in protected mode ----
struct Shared { Problem* s; World* w; char* desc; CollisionCheckerPtr cc; };
struct User { CSpaceSampledPtr space; bool own; Hook hook; long asked = 0; };
static int wantValid(const Shared& sh, const Cfg& c, double& dm)
{
    sim::NoPreempt np; auto L = sh.w->links(c); int r = 0; dm = 1e300;
    for (auto& l : L) for (size_t b = 0; b < sh.w->boxes.size(); b++) { Soup B = sh.w->box(b); double d = soupDist(l, B); dm = std::min(dm, d); int h = soupHit(l, B, d); if (h == 1) { r = 1; } else if (h < 0 && !r) r = -1; }
    return r;
}
static void sharedQueries(const Shared& sh, User& u, int n, bool faults)
{
    VirtualRobot::PRNG64Bit().seed(sim::rnd()); Problem& s = *sh.s;
    for (int k = 0; k < n; k++)
    {
        Cfg c = pickConfig(s);
        double d; int h = wantValid(sh, c, d); bool oom = faults && sim::chance(0.25); int op = sim::rint(0, 7);
        if (oom) sim::mem::failNew(sim::rint(1, 30), false, 0);
        try
        {
            bool g; float f;
            switch (op)
            {
                case 0: case 1: case 2: g = u.space->isConfigValid(c); sim::mem::off(); { sim::NoPreempt np; u.asked++; if (g && !s.ballFree(c)) sim::violation("wrong-validity", "a forbidden configuration is reported as valid (%s)", sh.desc); if (!s.ballFree(c)) { if (g) break; break; } } checkHit("validity", !g, h, d, sh.desc); break;
                case 3: case 4: g = u.space->isCollisionFree(c); sim::mem::off(); { sim::NoPreempt np; u.asked++; } checkHit("collision check", !g, h, d, sh.desc); break;
                case 5: { f = u.space->calculateObstacleDistance(c); sim::mem::off(); checkDist("obstacle distance", f, d, sh.desc); break; }
                case 6:
                {   // a section of its own under the lock everybody uses
                    sim::mem::off(); CSpace::lock();
                    s.robot->setJointValues(s.rns, c); sim::yield(); for (int i = sim::rint(0, 3); i > 0; i--) sim::yield();
                    g = sh.cc->checkCollision(SceneObjectSetPtr(s.robot->getRobotNodeSet("ArmCol")), s.obst);
                    CSpace::unlock(); checkHit("check under the lock", g, h, d, sh.desc); break;
                }
                case 7:
                    sim::mem::off();
                    if (u.own)
                    {
                        Cfg r(s.dim); long before = u.space->performaceVars_collisionCheck; u.space->getRandomConfig(r, true); double dr; int hr = wantValid(sh, r, dr); sim::NoPreempt np; u.asked += u.space->performaceVars_collisionCheck - before;
                        if (hr == 1 || !s.ballFree(r)) sim::violation("wrong-sample", "a sample drawn as valid is in collision or forbidden (%s)", sh.desc); sim::probe("valid-samples");
                    }
                    break;
            }
            if (oom && sim::mem::fired()) {}
        }
        catch (const std::bad_alloc&) { sim::mem::off(); sim::probe("query-out-of-memory"); { sim::NoPreempt np; u.asked = -1000000; } }
        sim::mem::off();
    }
}
static void run()
{
    Problem s; makeScene(s, false, sim::chance(0.3)); static char desc[240];
    World w; makeWorld(w, s, sim::rint(1, 4)); int k = sim::rint(1, 4); bool priv = sim::chance(0.5);
    snprintf(desc, sizeof desc, "%s, robot %d, %zu boxes, %d threads", priv ? "private scenes" : "shared robot", s.model, w.boxes.size(), k);
    sim::setStepLimit(600000000ULL, "collision queries"); sim::nontrivial();
    if (priv)
    {
        // one original, cloned for each thread: the clones share mesh data
        bool share = sim::chance(0.7); std::vector<ObstaclePtr> orig = makeObstacles(w, s.robot->getCollisionChecker());
        if (share && sim::chance(0.4)) for (auto& o : orig) { ObstaclePtr m(new ManipulationObject(o->getName(), o->getVisualization(), o->getCollisionModel(), SceneObject::Physics(), s.robot->getCollisionChecker())); m->setGlobalPose(o->getGlobalPose()); o = m; }
        // originals with safety margins: the copies have them too
        if (share) for (size_t i = 0; i < orig.size(); i++) if (sim::chance(0.3)) { CollisionModelPtr cm = orig[i]->getCollisionModel(); cm->inflateModel(sim::rreal(1, 15)); w.boxes[i].mesh = cm->getTriMeshModel()->clone(); sim::probe("inflated-original"); }
        if (sim::chance(0.2)) { s.robot->inflateCollisionModel(sim::rreal(1, 8)); for (size_t i = 0; i < w.linkName.size(); i++) w.linkMesh[i] = s.robot->getRobotNode(w.linkName[i])->getCollisionModel()->getTriMeshModel()->clone(); for (size_t i = 0; i < w.allName.size(); i++) w.allMesh[i] = s.robot->getRobotNode(w.allName[i])->getCollisionModel()->getTriMeshModel()->clone(); sim::probe("inflated-robot"); }
        SceneObjectSetPtr oo(new SceneObjectSet("o", s.robot->getCollisionChecker())); for (auto& o : orig) oo->addSceneObject(o);
        CDManagerPtr ocd(new CDManager(s.robot->getCollisionChecker())); ocd->addCollisionModelPair(s.robot->getRobotNodeSet("ArmCol"), oo);
        CSpaceSampledPtr ospace(new CSpaceSampled(s.robot, ocd, s.rns, 10)); if (s.weighted) ospace->setMetricWeights(s.weights);
        ospace->setSamplingSize(s.step); ospace->setSamplingSizeDCD(s.dcd); Cfg lo(s.dim), hi(s.dim); for (unsigned i = 0; i < s.dim; i++) { lo[i] = s.lo[i] * 1.01; hi[i] = s.hi[i] * 1.01; } if (sim::chance(0.5)) ospace->setBoundaries(lo, hi); else { for (unsigned i = 0; i < s.dim; i++) { lo[i] = s.lo[i]; hi[i] = s.hi[i]; } }
        std::vector<std::unique_ptr<Private>> ps;
        for (int i = 0; i < k; i++)
        {
            ps.emplace_back(new Private); Private& p = *ps.back(); p.w = w; p.cc.reset(new CollisionChecker()); p.robot = s.robot->clone("copy" + std::to_string(i), p.cc); p.robot->setUpdateVisualization(false); p.rns = p.robot->getRobotNodeSet("Arm");
            if (share) { for (auto& o : orig) { ManipulationObjectPtr m = boost::dynamic_pointer_cast<ManipulationObject>(o); ObstaclePtr c; if (m) c = m->clone(o->getName(), p.cc, sim::chance(0.4)); else c = o->clone(o->getName(), p.cc); c->setGlobalPose(o->getGlobalPose()); p.obs.push_back(c); } } else p.obs = makeObstacles(w, p.cc);
            SceneObjectSetPtr set(new SceneObjectSet("o", p.cc)); for (auto& o : p.obs) set->addSceneObject(o);
            p.cdm.reset(new CDManager(p.cc));
            if (sim::chance(0.5) || p.obs.size() == 1) { p.cdm->addCollisionModelPair(p.robot->getRobotNodeSet("ArmCol"), set); p.set = set; }
            else for (auto& o : p.obs) { SceneObjectSetPtr one(new SceneObjectSet("o", p.cc)); one->addSceneObject(o); if (sim::chance(0.5)) p.cdm->addCollisionModelPair(p.robot->getRobotNodeSet("ArmCol"), one); else p.cdm->addCollisionModelPair(one, p.robot->getRobotNodeSet("ArmCol")); }
            CSpacePtr c = ospace->clone(p.cc, p.robot, p.cdm); p.space = boost::dynamic_pointer_cast<CSpaceSampled>(c); p.useSpace = true;
            if (!p.space) sim::violation("no-copy", "a search space cannot be copied (%s)", desc);
            if (p.space->getDimension() != s.dim || p.space->getSamplingSize() != ospace->getSamplingSize() || p.space->getSamplingSizeDCD() != ospace->getSamplingSizeDCD() || p.space->getMetricWeights() != ospace->getMetricWeights()) sim::violation("copy-differs", "a copied search space differs from its original (%s)", desc);
            for (unsigned x = 0; x < s.dim; x++) if (p.space->getBoundaryMin(x) != ospace->getBoundaryMin(x) || p.space->getBoundaryMax(x) != ospace->getBoundaryMax(x)) sim::violation("copy-differs", "a copied search space has other boundaries than its original (%s)", desc);
            if (p.space->getRobot() != p.robot || p.space->getRobotNodeSet()->getRobot() != p.robot) sim::violation("copy-differs", "a copied search space works on another robot (%s)", desc);
            snprintf(p.desc, sizeof p.desc, "%s%s", desc, share ? ", copied models" : "");
        }
        Cfg orig0 = s.random(); s.rns->setJointValues(orig0);
        for (auto& p : ps) { Private* q = p.get(); int n = sim::rint(2, 10); if (k == 1) privateQueries(*q, n); else sim::spawn([q, n] { privateQueries(*q, n); }, "querier"); }
        sim::joinAll();
        std::vector<float> v = s.rns->getJointValues(); for (unsigned i = 0; i < s.dim; i++) if (v[i] != orig0[i]) sim::violation("original-moved", "queries on copies moved the original robot (%s)", desc);
    }
    else
    {
        auto cc = s.robot->getCollisionChecker(); s.obst.reset(new SceneObjectSet("obstacles", cc)); for (auto& o : makeObstacles(w, cc)) s.obst->addSceneObject(o);
        s.cdm->addCollisionModelPair(s.robot->getRobotNodeSet("ArmCol"), s.obst);
        bool one = sim::chance(0.4), faults = sim::chance(0.3); Shared sh{&s, &w, desc, cc}; std::vector<std::unique_ptr<User>> us; CSpaceSampledPtr common;
        for (int i = 0; i < k; i++)
        {
            us.emplace_back(new User); User& u = *us.back(); u.hook.scene = &s; u.own = !one || k == 1;
            if (one && common) u.space = common; else { u.space = makeSpace(s, &u.hook, 10); u.space->exclusiveRobotAccess(true); common = u.space; }
        }
        for (auto& u : us) { User* p = u.get(); int n = sim::rint(2, 10); if (k == 1) sharedQueries(sh, *p, n, faults); else sim::spawn([&sh, p, n, faults] { sharedQueries(sh, *p, n, faults); }, "querier"); }
        sim::joinAll();
        long asked = 0; bool exact = true; for (auto& u : us) { if (u->asked < 0) exact = false; asked += u->asked; if (u->own && u->asked >= 0 && u->space->performaceVars_collisionCheck != u->asked) sim::violation("check-counter", "%ld queries were made, %d are counted (%s)", u->asked, u->space->performaceVars_collisionCheck, desc); }
        if (one && k > 1 && exact && common->performaceVars_collisionCheck != asked) sim::violation("check-counter", "%ld queries were made by all threads, %d are counted (%s)", asked, common->performaceVars_collisionCheck, desc);
        if (exact) sim::probe("counters-compared");
        // nothing stays locked
        sim::spawn([] { CSpace::lock(); CSpace::unlock(); sim::probe("lock-probes"); }, "lock-probe"); sim::joinAll();
    }
    sim::clearStepLimit(); sim::sample("%s", desc);
}
sim::Harness sim::harness = {"C02", setup, run};
