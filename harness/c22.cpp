// C22: a grasp quality measure judges exactly the contacts it was given last.
#include "common.h"
#include <GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.h>
#include <GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.h>
#include <GraspPlanning/ContactConeGenerator.h>
using namespace VirtualRobot; using namespace GraspStudio; using namespace VirtualRobot::MathTools; typedef std::string S;
typedef EndEffector::ContactInfoVector Infos; typedef std::vector<ContactPoint> Points; typedef Eigen::Matrix<double, 6, 1> V6;

enum Type { NORMAL, NOTNORMAL, BASIC };
struct Spec { Type type; double force, mu; int cone; bool preOws; float ows, owsVol; int object; };
struct Contacts { bool infos; Points p; Infos i; S kind; };
struct Verdict { float quality; bool fc, valid; float volume; int vertices, faces; Eigen::Vector3f cp, cn; bool hasHull; };
struct Instance { Spec s; BasicGraspQualityMeasurePtr m; };

static ObstaclePtr g_obj[3]; static CollisionCheckerPtr g_cc;
static std::vector<Contacts> g_sets; static std::vector<Spec> g_specs; static std::vector<std::vector<Verdict>> g_want; static int g_threads;
static void setup()
{
    common::registerStub(); sim::opts().maxGapLog2 = 15; g_cc.reset(new CollisionChecker());
    for (int i = 0; i < 3; i++)
    {
        TriMeshModelPtr m(new TriMeshModel()); Eigen::Matrix4f t = Eigen::Matrix4f::Identity(); t.block<3, 1>(0, 3) = Eigen::Vector3f(10 * i, -7 * i, 3);
        if (i == 0) common::addBox(m, 60, 80, 100, t); else if (i == 1) common::addSphere(m, 40, t); else { common::addBox(m, 30, 30, 150, t); common::addBox(m, 100, 30, 20, t); }
        VisualizationNodePtr v(new common::StubVis(m)); g_obj[i].reset(new Obstacle("o" + std::to_string(i), v, CollisionModelPtr(new CollisionModel(v, "o", g_cc)), SceneObject::Physics(), g_cc));
    }
}
static BasicGraspQualityMeasurePtr make(const Spec& s)
{
    BasicGraspQualityMeasurePtr r;
    if (s.type == BASIC) r.reset(new BasicGraspQualityMeasure(g_obj[s.object]));
    else if (s.type == NOTNORMAL) r.reset(new GraspQualityMeasureWrenchSpaceNotNormalized(g_obj[s.object], s.force, s.mu, s.cone));
    else { auto* q = new GraspQualityMeasureWrenchSpace(g_obj[s.object], s.force, s.mu, s.cone); r.reset(q); if (s.preOws) q->preCalculatedOWS(s.ows, s.owsVol); }
    return r;
}
static void give(BasicGraspQualityMeasurePtr m, const Contacts& c) { if (c.infos) m->setContactPoints(c.i); else m->setContactPoints(c.p); }
static Verdict ask(BasicGraspQualityMeasurePtr m, Type t, int order = 0)
{
    Verdict v{}; v.volume = 0; auto c = m->getContactPointsCenter(); v.cp = c.p; v.cn = c.n; ConvexHull6DPtr h;
    auto* n = dynamic_cast<GraspQualityMeasureWrenchSpace*>(m.get()); auto* u = dynamic_cast<GraspQualityMeasureWrenchSpaceNotNormalized*>(m.get());
    for (int i = 0; i < 3; i++) switch ((i + order) % 3)
    {
        case 0: v.quality = m->getGraspQuality(); break;
        case 1: v.valid = m->isValid(); v.fc = n ? n->isGraspForceClosure() : u ? u->isGraspForceClosure() : false; break;
        case 2: if (n) v.volume = n->getVolumeGraspMeasure(); if (u) v.volume = u->getVolumeGraspMeasure(); break;
    }
    // (the volume is a ratio; it is known only after the object was judged)
    if (n) v.volume = n->getVolumeGraspMeasure();
    if (n) h = n->getConvexHullGWS(); if (u) h = u->getConvexHullGWS(); v.hasHull = h && !h->faces.empty(); if (h) { v.vertices = h->vertices.size(); v.faces = h->faces.size(); }
    return v;
}
static S show(const Verdict& v) { std::stringstream s; s << "quality " << v.quality << (v.fc ? " force closure" : "") << (v.valid ? " valid" : "") << " volume " << v.volume << " hull " << v.vertices << "/" << v.faces << " center " << v.cp.transpose() << " | " << v.cn.transpose(); return s.str(); }
static bool feq(float a, float b, double rt) { return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= rt * std::max(std::fabs(a), std::fabs(b)); }
static bool same(const Verdict& a, const Verdict& b, const Spec& s)
{
    double rt = s.type == NORMAL && !s.preOws ? 0.05 : 1e-6;
    return feq(a.quality, b.quality, rt) && a.fc == b.fc && a.valid == b.valid && feq(a.volume, b.volume, rt * 3) && a.vertices == b.vertices && a.faces == b.faces && a.hasHull == b.hasHull && a.cp == b.cp && a.cn == b.cn;
}
// distance of the origin from the convex hull of the points (Frank-Wolfe with away steps); lower bound in lo
static double originDistance(const std::vector<V6>& w, double& lo)
{
    V6 x = w[0]; std::vector<double> a(w.size(), 0); a[0] = 1; lo = 0;
    for (int it = 0; it < 3000; it++)
    {
        size_t s = 0, v = 0; double best = 1e300, worst = -1e300; for (size_t i = 0; i < w.size(); i++) { double d = x.dot(w[i]); if (d < best) best = d, s = i; if (a[i] > 1e-14 && d > worst) worst = d, v = i; }
        double xx = x.squaredNorm(); if (xx < 1e-18) break; lo = std::max(lo, best / std::sqrt(xx)); if (xx - best < 1e-10 * xx) break;
        V6 d; double mx; bool fw = xx - best >= worst - xx; if (fw) d = w[s] - x, mx = 1; else d = x - w[v], mx = a[v] < 1 ? a[v] / (1 - a[v]) : 1e9;
        double dd = d.squaredNorm(); if (dd < 1e-24) break; double g = std::min(mx, std::max(0.0, -x.dot(d) / dd)); x += g * d;
        if (fw) { for (auto& k : a) k *= 1 - g; a[s] += g; } else { for (auto& k : a) k *= 1 + g; a[v] -= g; }
    }
    return x.norm();
}
// what is true whatever the implementation: judged from the contacts alone
static void absolute(const Spec& s, const Contacts& c, BasicGraspQualityMeasurePtr m, const Verdict& v)
{
    size_t n = c.infos ? c.i.size() : c.p.size(); S what = c.kind + ", " + std::to_string(n) + " contacts: " + show(v);
    Eigen::Vector3f com = g_obj[s.object]->getCollisionModel()->getTriMeshModel()->getCOM(), cp = Eigen::Vector3f::Zero(), cn = cp; Points pts;
    for (size_t i = 0; i < n; i++)
    {
        ContactPoint p; if (c.infos) { auto& k = c.i[i]; p.p = k.contactPointObstacleLocal - com; p.n = k.contactPointFingerLocal - k.contactPointObstacleLocal; Eigen::Vector3f g = k.contactPointObstacleGlobal - k.contactPointFingerGlobal; p.force = g.norm() > 1e-10f ? g.dot(k.approachDirectionGlobal) / g.norm() : 0; }
        else { p = c.p[i]; p.p -= com; p.force = 1; }
        if (p.n.norm() > 0) p.n.normalize(); cp += p.p / n; cn += p.n / n; pts.push_back(p);
    }
    if ((cp - v.cp).norm() > 1e-2 || (cn - v.cn).norm() > 1e-4) sim::violation("wrong-contacts", "the center of the contacts is %g %g %g, not %g %g %g (%s)", cp[0], cp[1], cp[2], v.cp[0], v.cp[1], v.cp[2], what.c_str());
    if (s.type == BASIC) { float q = std::min(1.f, n / 5.f); if (v.quality != q || v.valid != (n >= 2)) sim::violation("wrong-quality", "%g expected (%s)", q, what.c_str()); return; }
    if (v.valid != v.fc) sim::violation("wrong-valid", "valid and force closure differ (%s)", what.c_str());
    if (!std::isfinite(v.quality) || v.quality < 0 || v.quality > 1e6 || !std::isfinite(v.volume) || v.volume < 0) sim::violation("absurd-quality", "%s", what.c_str());
    if (!v.hasHull && (v.quality != 0 || v.fc || v.volume != 0)) sim::violation("quality-of-nothing", "there is no wrench hull, but: %s", what.c_str());
    if (n < 2 && (v.fc || (n == 0 && v.hasHull))) sim::violation("quality-of-nothing", "%zu contacts: %s", n, what.c_str());
    // the wrenches, from the cones of the (real) generator
    std::vector<V6> w; ContactConeGenerator gen(s.cone, s.mu, s.force); Eigen::Vector3f lo, hi; g_obj[s.object]->getCollisionModel()->getTriMeshModel()->getSize(lo, hi); double len = (hi - lo).maxCoeff(); double width = 1e-9;
    for (auto& p : pts) { if (p.force == 0) { sim::probe("no-force"); continue; } ContactPoint q = p; q.p /= 1000.f; Points cone; gen.computeConePoints(q, cone); for (auto& k : cone) { Eigen::Vector3d f = k.n.cast<double>(), r = k.p.cast<double>(); V6 x; x.head(3) = f; x.tail(3) = -(2000.0 / len) * r.cross(f); w.push_back(x); width = std::max(width, x.norm()); } }
    if (w.empty()) { if (v.fc || v.quality != 0) sim::violation("quality-of-nothing", "no contact exerts a force, but: %s", what.c_str()); return; }
    double dlo; originDistance(w, dlo);
    if (v.fc && dlo > 0.02 * width) sim::violation("wrong-closure", "the wrenches leave the origin out by %g, but: %s", dlo, what.c_str());
    if (dlo > 0.02 * width) sim::probe("no-closure");
    auto* nn = dynamic_cast<GraspQualityMeasureWrenchSpace*>(m.get()); auto* u = dynamic_cast<GraspQualityMeasureWrenchSpaceNotNormalized*>(m.get()); ConvexHull6DPtr h; if (nn) h = nn->getConvexHullGWS(); if (u) h = u->getConvexHullGWS();
    if (!v.hasHull) { sim::probe("no-hull"); return; }
    V6 center; for (int i = 0; i < 3; i++) center[i] = h->center.p[i], center[3 + i] = h->center.n[i];
    double rC = 1e300, r0 = 1e300; for (auto& f : h->faces) { V6 d; for (int i = 0; i < 3; i++) d[i] = f.normal.p[i], d[3 + i] = f.normal.n[i]; double sup = -1e300; for (auto& x : w) sup = std::max(sup, d.dot(x)); rC = std::min(rC, sup - d.dot(center)); r0 = std::min(r0, sup); }
    if (r0 > 0.02 * width) { sim::probe("closure"); if (!v.fc) sim::violation("wrong-closure", "the wrenches contain the origin by %g, but: %s", r0, what.c_str()); }
    double q = v.quality; if (nn) q *= nn->getOWSMinOffset(); double tol = 0.02 * width;
    if (std::fabs(q - std::max(0.0, rC)) > tol && !(nn && nn->getOWSMinOffset() > 1e6)) sim::violation("wrong-quality", "the wrench hull contains a ball of radius %g around its center, not %g (%s)", rC, q, what.c_str());
    if (u && v.volume != h->volume) sim::violation("wrong-volume", "%s", what.c_str());
    if (nn && h->volume > 0 && nn->getOWSVolume() > 1e-10 && std::fabs(v.volume * nn->getOWSVolume() - h->volume) > 1e-3 * h->volume) sim::violation("wrong-volume", "volume ratio %g, hull %g, object %g", v.volume, h->volume, nn->getOWSVolume());
}
static Contacts makeContacts()
{
    Contacts c; c.infos = sim::chance(0.5); int kind = sim::rnd(9), n = kind == 0 ? 0 : kind == 1 ? 1 : kind == 2 ? 2 : sim::rint(2, sim::chance(0.2) ? 7 : 4); Points p; Eigen::Vector3f mid(sim::rreal(-30, 30), sim::rreal(-30, 30), sim::rreal(-30, 30)); double side = sim::rreal(-1, 1);
    for (int i = 0; i < n; i++)
    {
        ContactPoint q; q.force = 1; Eigen::Vector3f d(sim::rreal(-1, 1), sim::rreal(-1, 1), sim::rreal(-1, 1)); d += Eigen::Vector3f(0, 0, 1e-3f); d.normalize();
        switch (kind)
        {
            case 3: c.kind = "around the object"; q.p = d * 40.f; q.n = -d; break;
            case 4: c.kind = "on one side"; d[2] = std::fabs(d[2]) * (side > 0 ? 1 : -1); q.p = d * 40.f; q.n = d; break;
            case 5: { c.kind = "axis-aligned"; int a = sim::rnd(3); float s = sim::chance(0.5) ? 1 : -1; q.p = Eigen::Vector3f(sim::rreal(-20, 20), sim::rreal(-20, 20), sim::rreal(-20, 20)); q.p[a] = 40 * s; q.n.setZero(); q.n[a] = -s; break; }
            case 6: c.kind = "repeated"; if (i && sim::chance(0.7)) q = p[sim::rnd(i)]; else { q.p = d * 40.f; q.n = -d; } break;
            case 7: c.kind = "opposite"; if (i % 2) { q.p = -p[i - 1].p; q.n = -p[i - 1].n; } else { q.p = d * 40.f; q.n = -d; } break;
            default: c.kind = "anywhere"; q.p = mid + d * 20.f; q.n = Eigen::Vector3f(sim::rreal(-1, 1), sim::rreal(-1, 1), sim::rreal(0.05, 1)) * (sim::chance(0.5) ? 3.f : 0.5f); if (sim::chance(0.5)) q.n = -q.n; break;
        }
        p.push_back(q);
    }
    if (n == 0) c.kind = "none";
    if (!c.infos) { c.p = p; return c; }
    for (auto& q : p)
    {
        EndEffector::ContactInfo k; k.distance = 1; k.contactPointObstacleLocal = q.p; k.contactPointFingerLocal = q.p + q.n.normalized() * 2.f; k.contactPointObstacleGlobal = q.p + mid; k.contactPointFingerGlobal = k.contactPointObstacleGlobal + q.n.normalized() * 2.f;
        k.approachDirectionGlobal = -q.n.normalized() * (float)sim::rreal(0.3, 1); if (sim::chance(0.05)) k.contactPointFingerGlobal = k.contactPointObstacleGlobal; c.i.push_back(k);
    }
    return c;
}
struct Op { int set; long oomSet, oomAsk; int order; bool skipAsk; };
static void play(Instance in, int spec, const std::vector<Op>& ops, int thread)
{
    bool failedBefore = false; int prev = -1;
    for (auto& o : ops)
    {
        Contacts c; { sim::NoPreempt np; c = g_sets[o.set]; } bool given = true;
        try { if (o.oomSet > 0) sim::mem::failNew(o.oomSet - 1, false, 0); give(in.m, c); sim::mem::off(); }
        catch (const std::bad_alloc&) { bool f = sim::mem::fired(); sim::mem::off(); if (!f) throw; given = false; sim::probe("set-failed"); }
        catch (const std::exception& e) { sim::mem::off(); sim::violation("spurious-failure", "giving contacts (%s) throws %s", c.kind.c_str(), e.what()); }
        if (!given) { try { ask(in.m, in.s.type, o.order); } catch (const std::bad_alloc&) {} failedBefore = true; give(in.m, c); } // (not judged; the next ones are)
        if (o.skipAsk) { prev = o.set; continue; }
        if (o.oomAsk > 0) { try { sim::mem::failNew(o.oomAsk - 1, false, 0); ask(in.m, in.s.type, o.order); sim::mem::off(); } catch (const std::bad_alloc&) { bool f = sim::mem::fired(); sim::mem::off(); if (!f) throw; failedBefore = true; sim::probe("query-failed"); } }
        Verdict v; try { v = ask(in.m, in.s.type, o.order); } catch (const std::exception& e) { sim::violation("spurious-failure", "judging contacts (%s) throws %s", c.kind.c_str(), e.what()); }
        sim::NoPreempt np; const Verdict& w = g_want[spec][o.set];
        if (!same(v, w, in.s)) sim::violation("other-verdict", "contacts (%s, %zu, %s), given after %s%s: %s; a fresh measure: %s (type %d, %d threads, thread %d)", c.kind.c_str(), c.infos ? c.i.size() : c.p.size(), c.infos ? "closing" : "points", prev < 0 ? "nothing" : g_sets[prev].kind.c_str(), failedBefore ? " and a failed allocation" : "", show(v).c_str(), show(w).c_str(), in.s.type, g_threads, thread);
        prev = o.set; sim::probe("judged");
    }
}
static void run()
{
    sim::opts().allowPreempt = false; int k = sim::rint(1, 4); S desc; std::vector<Instance> insts; std::vector<std::vector<Op>> ops;
    { sim::NoPreempt np; for (int i = 0; i < k; i++) { g_sets.push_back(makeContacts()); desc += g_sets.back().kind + "(" + std::to_string(g_sets.back().infos ? g_sets.back().i.size() : g_sets.back().p.size()) + ") "; } }
    g_threads = sim::rint(1, 3); bool oom = sim::chance(0.4);
    for (int t = 0; t < g_threads; t++)
    {
        Spec s; s.type = sim::chance(0.45) ? NORMAL : sim::chance(0.7) ? NOTNORMAL : BASIC; s.force = sim::chance(0.7) ? 1 : sim::rreal(0.5, 2); s.mu = sim::chance(0.5) ? 0.35 : sim::rreal(0.1, 0.9); s.cone = sim::chance(0.6) ? 8 : sim::rint(3, 8); s.preOws = sim::chance(0.85); s.ows = sim::rreal(0.2, 1); s.owsVol = sim::rreal(0.1, 3); s.object = s.preOws ? sim::rnd(3) : 0; if (!s.preOws) s.cone = 5;
        g_specs.push_back(s); std::vector<Verdict> want;
        for (auto& c : g_sets) { auto m = make(s); give(m, c); Verdict v = ask(m, s.type); absolute(s, c, m, v); want.push_back(v); }
        g_want.push_back(want); Instance in; in.s = s; in.m = make(s); insts.push_back(in);
        std::vector<Op> o; int n = sim::rint(1, 5); for (int i = 0; i < n; i++) { Op p; p.set = sim::rnd(k); p.order = sim::rnd(3); p.skipAsk = sim::chance(0.1); p.oomSet = oom && sim::chance(0.3) ? sim::rint(1, 8) : 0; p.oomAsk = oom && sim::chance(0.4) ? 1 + (long)std::exp(sim::rreal(0, 5)) : 0; o.push_back(p); }
        ops.push_back(o);
    }
    sim::sample("%d threads%s: %s", g_threads, oom ? " (memory)" : "", desc.c_str()); sim::nontrivial(); sim::opts().allowPreempt = true; sim::setStepLimit(3000000000, "judging grasps");
    for (int t = 0; t < g_threads; t++) sim::spawn([t, &insts, &ops] { play(insts[t], t, ops[t], t); });
    sim::joinAll(); sim::clearStepLimit();
}
sim::Harness sim::harness = {"C22", setup, run};
