// C10: workspace files are complete or reported as failed.
#include "common.h"
#include <VirtualRobot/Workspace/WorkspaceRepresentation.h>
#include <VirtualRobot/Workspace/Reachability.h>
#include <VirtualRobot/Workspace/Manipulability.h>
#include <VirtualRobot/Compression/CompressionBZip2.h>
#include <VirtualRobot/Compression/CompressionRLE.h>
#include <VirtualRobot/IK/PoseQualityManipulability.h>
#include <VirtualRobot/IK/PoseQualityExtendedManipulability.h>
#include <fstream>
#include <cstring>
using namespace VirtualRobot; using namespace common;
typedef std::vector<unsigned char> Bytes;

static const int NR = 3;
static RobotPtr g_robot[NR];
static void setup()
{
    for (int i = 0; i < NR; i++)
    {
        RobotSpec s; s.n = 2 + i; s.branchAt = i ? 0 : -1; s.meshes = false; s.type = "SimArm" + std::to_string(i);
        g_robot[i] = makeRobot(s);
    }
}
// ---- the contents of a map ---------------------------------------------------------------------
struct St
{
    std::string base, tcp, ns, st, dy; int loops = 0, coll = 0, filled = 0, maxE = 0, vmaj = 0, vmin = 0, orient = 0;
    float dt = 0, dr = 0, mn[6], mx[6], amn[6], amx[6]; int nv[6]; bool hasData = false; Bytes vox;
    bool manip = false; std::string measure; bool jl = false; float maxManip = 0; bool sd = false; std::string sdS, sdD; float alpha = 0, beta = 0; void* obj = nullptr;
};
static bool same(float a, float b) { return memcmp(&a, &b, 4) == 0 || a == b; }
// internals: also what only matters for the object itself and is not in the file
static std::string diff(const St& a, const St& b, bool internals, bool version = true)
{
    std::stringstream s;
#define CMP(f) if (!(a.f == b.f)) { s << #f << " is " << a.f << ", should be " << b.f; return s.str(); }
#define CMPF(f) if (!same(a.f, b.f)) { s << #f << " is " << a.f << ", should be " << b.f; return s.str(); }
    CMP(base) CMP(tcp) CMP(ns) CMP(st) CMP(dy) CMP(loops) CMP(coll) CMP(orient) CMPF(dt) CMPF(dr) CMP(hasData)
    if (version) { CMP(vmaj) CMP(vmin) }
    for (int i = 0; i < 6; i++) { CMPF(mn[i]) CMPF(mx[i]) CMPF(amn[i]) CMPF(amx[i]) CMP(nv[i]) }
    CMP(filled) CMP(maxE)
    if (a.vox.size() != b.vox.size()) { s << a.vox.size() << " entries, should be " << b.vox.size(); return s.str(); }
    for (size_t i = 0; i < a.vox.size(); i++) if (a.vox[i] != b.vox[i]) { s << "entry " << i << " is " << (int)a.vox[i] << ", should be " << (int)b.vox[i]; return s.str(); }
    if (a.manip && b.manip)
    {
        CMP(measure) CMP(jl) CMPF(maxManip) CMP(sd) CMP(sdS) CMP(sdD)
        if (internals) { CMPF(alpha) CMPF(beta) CMP(obj) }
    }
    return "";
}
template <class B> struct Probe : public B
{
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    Probe(RobotPtr r) : B(r) {}
    void addPose(const Eigen::Matrix4f& p) override { B::addPose(p); }
    void common(St& s)
    {
        if (this->baseNode) s.base = this->baseNode->getName(); if (this->tcpNode) s.tcp = this->tcpNode->getName(); if (this->nodeSet) s.ns = this->nodeSet->getName();
        if (this->staticCollisionModel) s.st = this->staticCollisionModel->getName(); if (this->dynamicCollisionModel) s.dy = this->dynamicCollisionModel->getName();
        s.loops = this->buildUpLoops; s.coll = this->collisionConfigs; s.vmaj = this->versionMajor; s.vmin = this->versionMinor; s.orient = this->orientationType;
        s.dt = this->discretizeStepTranslation; s.dr = this->discretizeStepRotation;
        for (int i = 0; i < 6; i++) { s.mn[i] = this->minBounds[i]; s.mx[i] = this->maxBounds[i]; s.amn[i] = this->achievedMinValues[i]; s.amx[i] = this->achievedMaxValues[i]; s.nv[i] = this->numVoxels[i]; }
        s.hasData = (bool)this->data;
        if (!this->data) return;
        s.filled = this->data->getVoxelFilledCount(); s.maxE = this->data->getMaxEntry();
        for (int a = 0; a < s.nv[0]; a++) for (int b = 0; b < s.nv[1]; b++) for (int c = 0; c < s.nv[2]; c++) for (int d = 0; d < s.nv[3]; d++) for (int e = 0; e < s.nv[4]; e++) for (int f = 0; f < s.nv[5]; f++)
            s.vox.push_back(this->data->get(a, b, c, d, e, f));
        for (int i = 0; i < 6; i++) if (std::fabs(this->spaceSize[i] - (s.mx[i] - s.mn[i])) > 1e-3 * std::fabs(this->spaceSize[i])) sim::violation("space-size", "the extent of dimension %d is %g, its bounds are [%g %g]", i, this->spaceSize[i], s.mn[i], s.mx[i]);
    }
    void fill(bool few)
    {
        this->buildUpLoops = sim::rnd(100000); this->collisionConfigs = sim::rnd(1000);
        for (int i = 0; i < 6; i++) { this->achievedMinValues[i] = sim::rreal(-500, 0); this->achievedMaxValues[i] = sim::rreal(0, 500); }
        size_t total = 1; for (int i = 0; i < 6; i++) total *= this->numVoxels[i];
        size_t n = few ? sim::rnd(6) : total * sim::runit() * (sim::chance(0.5) ? 0.1 : 1.2);
        bool cluttered = sim::chance(0.5);
        for (size_t k = 0; k < n; k++) { unsigned int v[6]; for (int i = 0; i < 6; i++) v[i] = sim::rnd(this->numVoxels[i]); this->data->setDatum(v, cluttered ? 1 + sim::rnd(255) : 1 + sim::rnd(2)); }
    }
    // one entry changes while the number of filled entries stays (if there is any)
    void touch()
    {
        unsigned int v[6];
        for (int k = 0; k < 200; k++) { for (int i = 0; i < 6; i++) v[i] = sim::rnd(this->numVoxels[i]); unsigned char c = this->data->get(v); if (c) { this->data->setDatum(v, c > 1 ? c - 1 : c + 1); return; } }
        for (int i = 0; i < 6; i++) v[i] = sim::rnd(this->numVoxels[i]);
        this->data->setDatum(v, 1 + sim::rnd(255));
    }
    std::string typeName() { return this->type; }
};
typedef Probe<WorkspaceRepresentation> PW; typedef Probe<Reachability> PR;
struct PM : public Probe<Manipulability>
{
    EIGEN_MAKE_ALIGNED_OPERATOR_NEW
    PM(RobotPtr r) : Probe<Manipulability>(r) {}
    void manip(St& s)
    {
        s.manip = true; s.measure = measureName; s.jl = considerJL; s.maxManip = maxManip; s.sd = considerSelfDist;
        if (selfDistStatic) s.sdS = selfDistStatic->getName(); if (selfDistDynamic) s.sdD = selfDistDynamic->getName();
        s.alpha = selfDistAlpha; s.beta = selfDistBeta; s.obj = measure.get();
    }
};
// one map of any of the three kinds
struct Map
{
    boost::shared_ptr<WorkspaceRepresentation> w; PW* pw = nullptr; PR* pr = nullptr; PM* pm = nullptr;
    Map(RobotPtr r, int kind)
    {
        if (kind == 0) { boost::shared_ptr<PW> p(new PW(r)); pw = p.get(); w = p; }
        else if (kind == 1) { boost::shared_ptr<PR> p(new PR(r)); pr = p.get(); w = boost::static_pointer_cast<WorkspaceRepresentation>(p); }
        else { boost::shared_ptr<PM> p(new PM(r)); pm = p.get(); w = boost::static_pointer_cast<WorkspaceRepresentation>(p); }
    }
    St state() { St s; if (pw) pw->common(s); if (pr) pr->common(s); if (pm) { pm->common(s); pm->manip(s); } return s; }
    std::string type() { return pw ? pw->typeName() : pr ? pr->typeName() : pm->typeName(); }
    PoseQualityExtendedManipulabilityPtr ext() { return pm ? boost::dynamic_pointer_cast<PoseQualityExtendedManipulability>(pm->getManipulabilityMeasure()) : PoseQualityExtendedManipulabilityPtr(); }
    void generate(int k, int size)
    {
        RobotPtr r = w->getRobot(); bool branch = r->hasRobotNodeSet("Branch");
        float lo[6], hi[6], vt = sim::rreal(10, 200), vr = sim::rreal(0.2, 3);
        for (int i = 0; i < 6; i++) { float st = i < 3 ? vt : vr; lo[i] = sim::rreal(-600, 100); if (i >= 3) lo[i] = sim::rreal(-3, 0); int n = 1 + sim::rnd(i < 3 ? size : size > 3 ? 4 : 2); hi[i] = lo[i] + st * (n - 0.5f); }
        SceneObjectSetPtr st, dy; if (branch && sim::chance(0.5)) { st = r->getRobotNodeSet("Branch"); dy = r->getRobotNodeSet("ArmCol"); }
        bool part = sim::chance(0.3);
        RobotNodePtr base = sim::chance(0.6) ? r->getRobotNode(part && sim::chance(0.5) ? "J0" : "Base") : RobotNodePtr(), tcp = sim::chance(0.3) ? r->getRobotNode("J1") : RobotNodePtr();
        RobotNodeSetPtr ns = r->getRobotNodeSet(part ? "ArmCol" : "Arm");
        if (pm)
        {
            int m = sim::rnd(3);
            if (m == 1) pm->setManipulabilityMeasure(PoseQualityMeasurementPtr(new PoseQualityManipulability(ns)));
            if (m == 2) pm->setManipulabilityMeasure(PoseQualityMeasurementPtr(new PoseQualityExtendedManipulability(ns)));
            pm->setMaxManipulability(sim::rreal(0.1, 20));
            if (branch && sim::chance(0.5))
            {
                pm->initSelfDistanceCheck(r->getRobotNodeSet("Branch"), r->getRobotNodeSet("ArmCol"));
                if (ext()) ext()->considerObstacles(true, sim::rreal(1, 50), sim::rreal(0.1, 3));
            }
        }
        bool adj = sim::chance(0.5); bool few = sim::chance(0.4);
        w->initialize(ns, vt, vr, lo, hi, st, dy, base, tcp, adj);
        if (pw) pw->fill(few); if (pr) pr->fill(few); if (pm) pm->fill(few);
        if (sim::chance(0.15)) { for (int i = 0; i < 3; i++) { Eigen::Matrix4f p = randomPose(300); if (pw) pw->addPose(p); if (pr) pr->addPose(p); } }
    }
};
// what happened to the object before: it was saved, saved without success, loaded, copied, changed
static std::string trySave(Map& m, const std::string& fn);
static std::string tryLoad(Map& m, const std::string& fn);
static void history(Map& m, int k, int kind)
{
    std::string fn = sim::io::scratch() + "history", other = sim::io::scratch() + "history2"; int n = 1 + sim::rnd(3);
    for (int i = 0; i < n; i++)
    {
        switch (sim::rnd(4))
        {
            case 0: { std::string e = trySave(m, fn); if (e != "") sim::violation("spurious-failure", "saving to working storage failed: %s", e.c_str()); break; }
            case 1: { auto& pl = sim::io::plan(); if (sim::chance(0.3)) pl.failOpen = true; else if (sim::chance(0.5)) { pl.eioWriteAt = sim::rnd(400); pl.eioOnce = sim::chance(0.5); } else pl.capacity = sim::rnd(400); trySave(m, other); pl = sim::io::Plan(); break; }
            case 2:
            {
                Map o(g_robot[k], kind); o.generate(k, 3);
                std::string e = trySave(o, fn); if (e != "") sim::violation("spurious-failure", "saving to working storage failed: %s", e.c_str());
                e = tryLoad(m, fn); if (e != "") sim::violation("saved-not-loadable", "the file of a successful save cannot be loaded into a used object: %s", e.c_str());
                std::string d = diff(m.state(), o.state(), false); if (d != "") sim::violation("wrong-contents", "a file loaded into a used object as a different map: %s", d.c_str());
                break;
            }
            default: m.generate(k, 3);
        }
    }
    if (m.pw) m.pw->touch(); if (m.pr) m.pr->touch(); if (m.pm) m.pm->touch();
    sim::io::resetStats(); sim::probe("used-object");
}
static std::string fileOf(const Bytes& b) { return std::string(b.begin(), b.end()); }
static Bytes slurp(const std::string& fn) { std::ifstream f(fn, std::ios::binary); return Bytes((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); }
static void spit(const std::string& fn, const Bytes& b) { std::ofstream f(fn, std::ios::binary | std::ios::trunc); f.write((const char*)b.data(), b.size()); }
// loads; returns "" or the error
static std::string tryLoad(Map& m, const std::string& fn)
{
    try { m.w->load(fn); return ""; }
    catch (const std::bad_alloc&) { return "bad_alloc"; }
    catch (const std::exception& e) { if (!sim::mem::fired()) sim::mem::off(); return std::string("x") + e.what(); }
}
static std::string trySave(Map& m, const std::string& fn)
{
    try { m.w->save(fn); return ""; }
    catch (const std::bad_alloc&) { return "bad_alloc"; }
    catch (const std::exception& e) { if (!sim::mem::fired()) sim::mem::off(); return std::string("x") + e.what(); }
}
// ---- an independent description of the file format ------------------------------------------------
struct Doc
{
    std::string type, robot; int vmaj = 2, vmin = 9; std::vector<float> limits; int nodes = 0; St s; bool manipPart = false; float alpha = 0, beta = 0;
};
static void rawEncode(const St& s, Bytes& o) { o.insert(o.end(), s.vox.begin(), s.vox.end()); }
static Bytes ser(const Doc& d, size_t& voxAt, size_t& voxEnd)
{
    Bytes o; auto raw = [&](const void* p, size_t n) { o.insert(o.end(), (const unsigned char*)p, (const unsigned char*)p + n); };
    auto i32 = [&](int32_t v) { raw(&v, 4); }; auto f32 = [&](float v) { raw(&v, 4); }; auto str = [&](const std::string& s) { i32(s.size()); raw(s.data(), s.size()); };
    auto ge = [&](int a, int b) { return d.vmaj > a || (d.vmaj == a && d.vmin >= b); };
    const St& s = d.s;
    str(d.type); i32(d.vmaj); i32(d.vmin); str(d.robot); str(s.ns);
    if (ge(1, 1)) { i32(d.nodes); for (float f : d.limits) f32(f); }
    str(s.tcp);
    if (ge(1, 1)) str(s.base);
    str(s.st.empty() ? "not set" : s.st); str(s.dy.empty() ? "not set" : s.dy);
    i32(s.loops); i32(s.coll); f32(s.dt); f32(s.dr);
    for (int i = 0; i < 6; i++) i32(s.nv[i]);
    i32(s.filled); i32(s.maxE);
    for (int i = 0; i < 6; i++) { f32(s.mn[i]); f32(s.mx[i]); }
    for (int i = 0; i < 6; i++) { f32(s.amn[i]); f32(s.amx[i]); }
    if (d.manipPart && ge(2, 2))
    {
        str(s.measure); i32(s.jl); f32(s.maxManip);
        if (ge(2, 3)) { i32(s.sd); str(s.sd ? s.sdS : "<not set>"); str(s.sd ? s.sdD : "<not set>"); }
        if (ge(2, 9)) { f32(d.alpha); f32(d.beta); }
    }
    str("DATA_START"); voxAt = o.size();
    size_t rot = (size_t)s.nv[3] * s.nv[4] * s.nv[5], n = s.vox.size();
    if (!ge(1, 3)) rawEncode(s, o);
    else if (!ge(2, 1))
    {
        Bytes c; for (size_t i = 0; i < n;) { size_t l = 1; while (i + l < n && l < 255 && s.vox[i + l] == s.vox[i]) l++; if (l > 1 && sim::chance(0.1)) l = 1 + sim::rnd(l); c.push_back(l); c.push_back(s.vox[i]); i += l; }
        i32(c.size()); raw(c.data(), c.size());
    }
    else if (!ge(2, 4)) { Bytes c(n * 3 + 10); int k = CompressionRLE::RLE_Compress(s.vox.data(), c.data(), n); i32(k); raw(c.data(), k); }
    else if (!ge(2, 5)) for (size_t i = 0; i < n; i += rot) { Bytes c(rot * 3 + 10); int k = CompressionRLE::RLE_Compress(&s.vox[i], c.data(), rot); i32(k); raw(c.data(), k); }
    else
    {
        std::ostringstream os; { CompressionBZip2 z(&os); Bytes v = s.vox; if (!z.write(v.data(), n) || !z.close()) sim::violation("compressor", "cannot compress %zu bytes", n); }
        std::string c = os.str(); raw(c.data(), c.size());
    }
    voxEnd = o.size();
    str("DATA_END");
    return o;
}
static int orientOf(int maj, int min) { return maj < 2 || min < 6 ? WorkspaceRepresentation::RPY : min == 6 ? WorkspaceRepresentation::EulerXYZ : min == 7 ? WorkspaceRepresentation::EulerXYZExtrinsic : WorkspaceRepresentation::Hopf; }
// reads the part in front of the voxel data; false: no valid file
static bool parse(const Bytes& b, RobotPtr r, bool manipObj, const std::string& objType, Doc& d, size_t& pos)
{
    pos = 0; bool ok = true; St& s = d.s;
    auto raw = [&](void* p, size_t n) { if (!ok || b.size() - pos < n) { ok = false; memset(p, 0, n); return; } memcpy(p, &b[pos], n); pos += n; };
    auto i32 = [&] { int32_t v; raw(&v, 4); return (int)v; }; auto f32 = [&] { float v; raw(&v, 4); return v; };
    auto str = [&] { int n = i32(); if (ok && n < 0) return std::string(); if (!ok || (size_t)n > b.size() - pos) { ok = false; return std::string(); } std::string t(b.begin() + pos, b.begin() + pos + n); pos += n; return std::string(t.c_str()); };
    auto ge = [&](int a, int c) { return d.vmaj > a || (d.vmaj == a && d.vmin >= c); };
    d.type = str();
    if (d.type != "WorkspaceRepresentation Binary File" && d.type != "Reachability Binary File" && d.type != "Reachbaility Binary File" && d.type != "Manipulability Binary File" && d.type != "ReachabilitySpace Binary File" && d.type != objType + " Binary File") return false;
    d.vmaj = i32(); d.vmin = i32(); if (!ok) return false;
    s.vmaj = d.vmaj; s.vmin = d.vmin;
    if (d.vmaj > 2 || (d.vmaj == 2 && (d.vmin < 0 || d.vmin > 9)) || (d.vmaj == 1 && d.vmin != 0 && d.vmin != 2 && d.vmin != 3)) return false;
    s.orient = orientOf(d.vmaj, d.vmin);
    if (str() != r->getType()) return false;
    s.ns = str(); if (!ok || !r->hasRobotNodeSet(s.ns)) return false;
    if (ge(1, 1)) { int n = i32(); int k = r->getRobotNodeSet(s.ns)->getSize(); if (n >= 0 && n != k) return false; for (int i = 0; i < 2 * k; i++) f32(); }
    s.tcp = str(); if (!ok || !r->hasRobotNode(s.tcp)) return false;
    if (ge(1, 1)) { s.base = str(); if (!r->hasRobotNode(s.base)) s.base = ""; }
    s.st = str(); if (!r->hasRobotNodeSet(s.st)) s.st = "";
    s.dy = str(); if (!r->hasRobotNodeSet(s.dy)) s.dy = "";
    s.loops = i32(); s.coll = i32(); s.dt = f32(); s.dr = f32();
    double prod = 1; for (int i = 0; i < 6; i++) { s.nv[i] = i32(); if (s.nv[i] <= 0) ok = false; prod *= s.nv[i]; }
    s.filled = i32(); s.maxE = (unsigned char)i32();
    for (int i = 0; i < 6; i++) { s.mn[i] = f32(); s.mx[i] = f32(); }
    for (int i = 0; i < 6; i++) { s.amn[i] = f32(); s.amx[i] = f32(); }
    if (manipObj) s.manip = true;
    if (manipObj && ge(2, 2))
    {
        s.measure = str(); s.jl = i32() != 0; s.maxManip = f32();
        if (ge(2, 3))
        {
            s.sd = i32() != 0; s.sdS = str(); s.sdD = str();
            if (!s.sd) s.sdS = s.sdD = "";
            else if (!r->hasRobotNodeSet(s.sdS) || !r->hasRobotNodeSet(s.sdD)) { s.sd = false; s.sdS = s.sdD = ""; }
        }
        if (ge(2, 9)) { s.alpha = f32(); s.beta = f32(); }
    }
    return str() == "DATA_START" && ok && prod < 3e9;
}
static const uint64_t LIMIT = 400000000;

// ---- saving to faulty storage ---------------------------------------------------------------------
static void saving(Map& m, int k, int kind)
{
    std::string good = sim::io::scratch() + "good", fn = sim::io::scratch() + "out";
    St before = m.state();
    std::string e = trySave(m, good);
    if (e != "") sim::violation("spurious-failure", "saving to working storage failed: %s", e.c_str());
    long len = sim::io::stats().written; if (sim::chance(0.3)) spit(fn, Bytes(sim::rnd(5000), 'o'));   // an older file is overwritten
    sim::io::resetStats();
    auto& pl = sim::io::plan(); int f = sim::rnd(8); bool oom = false;
    if (f == 0) pl.capacity = sim::rnd(len + 1);
    else if (f == 1) { pl.eioWriteAt = sim::rnd(len + 1); pl.eioOnce = sim::chance(0.6); }
    else if (f == 2) pl.failClose = true;
    else if (f == 3) pl.failOpen = true;
    else if (f == 4) { oom = true; sim::mem::failNew(sim::rnd(40), sim::chance(0.5)); }
    if (f != 7 && sim::chance(0.5)) { pl.shortWriteP = sim::runit() * 0.9; pl.eintrP = sim::chance(0.5) ? 0.3 * sim::runit() : 0; }
    sim::sample("save kind %d, %ld bytes, fault %d at %ld/%ld", kind, len, f, pl.capacity, pl.eioWriteAt);
    sim::setStepLimit(LIMIT, "saving a workspace map");
    e = trySave(m, fn);
    sim::clearStepLimit();
    oom = oom && sim::mem::fired(); sim::mem::off();
    bool faulty = sim::io::stats().writeFaults > 0 || f == 3;
    pl = sim::io::Plan();
    std::string d = diff(m.state(), before, true);
    if (d != "") sim::violation("object-changed", "saving (%s) changed the map: %s", e == "" ? "success" : "failed", d.c_str());
    if (e == "" && faulty) sim::violation("failure-unreported", "storage failed while saving %ld bytes (fault kind %d, %ld written) but save() succeeded", len, f, sim::io::stats().written);
    if (e != "" && !faulty && !oom) sim::violation("spurious-failure", "saving to working storage failed: %s", e.c_str());
    sim::nontrivial(); sim::probe(e == "" ? "save-succeeded" : "save-failed");
    auto verify = [&](const std::string& file, const char* what)
    {
        Map n(g_robot[k], kind == 2 ? 2 : sim::rnd(2));
        std::string le = tryLoad(n, file);
        if (le != "") sim::violation("saved-not-loadable", "the file of a successful save (%s) cannot be loaded: %s", what, le.c_str());
        std::string d = diff(n.state(), before, false);
        if (d != "") sim::violation("saved-differs", "the file of a successful save (%s) loads as a different map: %s", what, d.c_str());
        if (before.sd && m.ext()) { float a, b, c, e2; m.ext()->getSelfDistParameters(a, b); if (n.ext()) { n.ext()->getSelfDistParameters(c, e2); if (!same(a, c) || !same(b, e2)) sim::violation("saved-differs", "self-distance parameters %g %g loaded as %g %g", a, b, c, e2); } }
    };
    if (e == "") verify(fn, "with faults around");
    else
    {
        // a failed attempt spoils nothing: a partial file is refused, and the next attempt succeeds
        if (sim::chance(0.5))
        {
            Map n(g_robot[k], kind); St empty = n.state(); Bytes part = slurp(fn), whole = slurp(good);
            std::string le = tryLoad(n, fn);
            if (le == "" && part != whole) { std::string d = diff(n.state(), before, false); sim::violation("partial-file-accepted", "the %zu of %zu bytes a failed save left behind were loaded as a map%s%s", part.size(), whole.size(), d == "" ? "" : ": ", d.c_str()); }
            if (le != "") { std::string d = diff(n.state(), empty, true); if (d != "") sim::violation("contents-lost", "a failed load left a partly filled map: %s", d.c_str()); }
        }
        sim::io::resetStats();
        e = trySave(m, fn);
        if (e != "") sim::violation("spurious-failure", "saving again after a failed attempt does not work: %s", e.c_str());
        verify(fn, "second attempt");
    }
    sim::event(len);
}
// ---- loading damaged files ----------------------------------------------------------------------
static void loading(Map& a, int k, int kind)
{
    std::string good = sim::io::scratch() + "good", fn = sim::io::scratch() + "bad";
    RobotPtr r = g_robot[k];
    St want = a.state(); Doc doc; Bytes file; size_t voxAt = 0, voxEnd = 0; bool legacy = sim::chance(0.5);
    if (!legacy)
    {
        std::string e = trySave(a, good); if (e != "") sim::violation("spurious-failure", "saving to working storage failed: %s", e.c_str());
        file = slurp(good);
        Doc p; if (!parse(file, r, kind == 2, a.type(), p, voxAt)) sim::violation("bad-file", "the saved file does not have the documented layout");
        voxEnd = file.size() - 12;
    }
    else
    {
        static const int V[][2] = {{1, 0}, {1, 2}, {1, 3}, {2, 0}, {2, 1}, {2, 2}, {2, 3}, {2, 4}, {2, 5}, {2, 6}, {2, 7}, {2, 8}, {2, 9}};
        int v = sim::rnd(13);
        doc.s = want; doc.vmaj = V[v][0]; doc.vmin = V[v][1]; doc.robot = r->getType(); doc.manipPart = kind == 2;
        static const char* T[] = {"WorkspaceRepresentation", "Reachability", "Reachbaility", "ReachabilitySpace"};
        doc.type = std::string(kind == 2 ? "Manipulability" : T[sim::rnd(4)]) + " Binary File";
        RobotNodeSetPtr ns = r->getRobotNodeSet(want.ns); doc.nodes = ns->getSize();
        for (auto& n : ns->getAllRobotNodes()) { doc.limits.push_back(n->getJointLimitLo()); doc.limits.push_back(n->getJointLimitHi()); }
        doc.alpha = 40; doc.beta = 1;
        file = ser(doc, voxAt, voxEnd);
        want.vmaj = doc.vmaj; want.vmin = doc.vmin; want.orient = orientOf(doc.vmaj, doc.vmin);
        auto ge = [&](int x, int y) { return doc.vmaj > x || (doc.vmaj == x && doc.vmin >= y); };
        if (!ge(1, 1)) want.base = "";
        St none = Map(r, kind).state();
        if (!ge(2, 2) ) { want.measure = none.measure; want.jl = none.jl; want.maxManip = none.maxManip; }
        if (!ge(2, 3)) { want.sd = none.sd; want.sdS = none.sdS; want.sdD = none.sdD; }
        spit(good, file);
        sim::probe("legacy-version");
    }
    // the object: fresh, or holding another map
    int xkind = kind == 2 ? 2 : sim::rnd(2);
    Map x(r, xkind);
    bool holding = sim::chance(0.6);
    if (holding) x.generate(k, 3);
    // what remains as it was from before the load when the file has no such section
    St prior = x.state();
    St expect = want;
    if (kind == 2 && legacy)
    {
        auto ge = [&](int p, int q) { return doc.vmaj > p || (doc.vmaj == p && doc.vmin >= q); };
        if (!ge(2, 2)) { expect.measure = prior.measure; expect.jl = prior.jl; expect.maxManip = prior.maxManip; expect.sd = prior.sd; expect.sdS = prior.sdS; expect.sdD = prior.sdD; }
    }
    int f = sim::rnd(12); Bytes bad = file; bool mustThrow = false, mayThrow = false, altered = false, oom = false; auto& pl = sim::io::plan();
    std::string what;
    bool header = false;
    if (f == 0 || f == 1) { size_t n = sim::chance(0.5) ? sim::rnd(file.size()) : sim::chance(0.5) ? sim::rnd(voxAt + 1) : voxEnd + sim::rnd(file.size() - voxEnd); bad.resize(n); mustThrow = true; what = "cut after " + std::to_string(n) + " of " + std::to_string(file.size()) + " bytes"; sim::fault::note("file-truncated"); }
    else if (f == 2) { size_t n = sim::rnd(file.size()); std::fill(bad.begin() + n, bad.end(), 0); mustThrow = bad != file; what = "zeros from byte " + std::to_string(n); sim::fault::note("file-torn"); }
    else if (f == 3)
    {
        // bytes of the voxel data altered (the run-length coded and raw data of old files has no check sums)
        bool bz = !legacy || (doc.vmaj == 2 && doc.vmin >= 5);
        size_t n = voxEnd - voxAt; int cnt = 1 + sim::rnd(3);
        for (int i = 0; i < cnt && n; i++) { size_t p = voxAt + sim::rnd(n); bad[p] = sim::chance(0.6) ? bad[p] ^ (1 << sim::rnd(8)) : sim::rnd(256); }
        if (bz) mayThrow = true; else { altered = true; mayThrow = true; }
        what = "voxel data altered"; sim::fault::note("file-bytes-altered");
    }
    else if (f == 4 || f == 5)
    {
        int cnt = 1 + (sim::chance(0.3) ? sim::rnd(4) : 0);
        for (int i = 0; i < cnt; i++) { size_t p = sim::rnd(voxAt); bad[p] = sim::chance(0.6) ? bad[p] ^ (1 << sim::rnd(8)) : sim::rnd(256); }
        if (sim::chance(0.1)) { size_t p = voxEnd + sim::rnd(file.size() - voxEnd); bad[p] ^= 1 + sim::rnd(255); mustThrow = true; }
        mayThrow = true; header = true; what = "header altered"; sim::fault::note("file-bytes-altered");
    }
    else if (f == 6) { pl.eioReadAt = sim::rnd(file.size()); what = "read error at " + std::to_string(pl.eioReadAt); }
    else if (f == 7) { if (sim::chance(0.3)) { pl.failOpen = true; mustThrow = true; } else { bad.clear(); mustThrow = true; } what = "no file"; }
    else if (f == 8) { oom = true; mayThrow = true; what = "out of memory"; }
    else if (f == 9)
    {
        // sizes which make the reader ask for too much memory
        size_t p = voxAt - 14;   // in front of "DATA_START"; the sizes lie at a fixed distance from the end only for maps without own section
        if (kind != 2) { size_t nvAt = p - 6 * 4 * 4 - 8 - 24; int i = sim::rnd(6); int32_t v = sim::chance(0.3) ? -1 - (int)sim::rnd(1000) : sim::chance(0.5) ? 0x7fffffff - (int)sim::rnd(1000) : 1 << (8 + sim::rnd(22)); memcpy(&bad[nvAt + 4 * i], &v, 4); mustThrow = v != doc.s.nv[i] || bad != file; oom = true; what = "dimension " + std::to_string(i) + " is " + std::to_string(v); sim::fault::note("file-bytes-altered"); }
        else what = "none";
    }
    else what = "none";
    if (sim::chance(0.5)) { pl.shortReadP = 0.9 * sim::runit(); pl.eintrP = sim::chance(0.5) ? 0.3 * sim::runit() : 0; }
    sim::io::Plan keep = pl; pl = sim::io::Plan();
    if (!(f == 7 && !keep.failOpen && sim::chance(0.5))) spit(fn, bad);
    Doc pd; size_t ppos = 0; bool parsed = false;
    if (header)
    {
        parsed = parse(bad, r, xkind == 2, x.type(), pd, ppos);
        double prod = 1; for (int i = 0; i < 6; i++) prod *= pd.s.nv[i];
        if (!parsed || ppos != voxAt || prod != want.vox.size()) parsed = false;
        sim::log("altered header: version %d.%d, voxels %d %d %d %d %d %d, parsed %d up to %zu of %zu, tcp %s set %s", pd.vmaj, pd.vmin, pd.s.nv[0], pd.s.nv[1], pd.s.nv[2], pd.s.nv[3], pd.s.nv[4], pd.s.nv[5], parsed, ppos, voxAt, pd.s.tcp.c_str(), pd.s.ns.c_str());
    }
    sim::sample("load kind %d into %d%s version %d.%d, %zu bytes (%zu voxels): %s", kind, xkind, holding ? " (holding a map)" : "", doc.vmaj, doc.vmin, file.size(), want.vox.size(), what.c_str());
    sim::io::resetStats(); pl = keep;
    sim::setStepLimit(LIMIT, "loading a workspace map");
    if (f == 8) sim::mem::failNew(sim::rnd(60), sim::chance(0.5));
    else if (f == 9 || header) sim::mem::failAny(0, true, 64 << 20);     // requests above 64 MB fail
    std::string e = tryLoad(x, fn);
    sim::mem::off(); sim::clearStepLimit();
    bool readFault = sim::io::stats().readFaults > 0; long opens = sim::io::stats().opens, closes = sim::io::stats().closes;
    pl = sim::io::Plan();
    St now = x.state();
    sim::nontrivial(); sim::probe(e == "" ? "load-succeeded" : "load-failed");
    if (opens != closes) sim::violation("handle-leak", "%ld files opened, %ld closed (%s)", opens, closes, what.c_str());
    if (e == "")
    {
        if (mustThrow) sim::violation("damaged-accepted", "a damaged file was loaded (%s, version %d.%d, kind %d)", what.c_str(), doc.vmaj, doc.vmin, kind);
        if (readFault) sim::violation("read-error-accepted", "loading succeeded although reading failed (%s of %zu bytes)", what.c_str(), file.size());
        if (header)
        {
            if (!parsed) sim::violation("damaged-accepted", "a file with a damaged header was loaded");
            pd.s.vox = want.vox; pd.s.hasData = true;
            if (pd.s.manip && !(pd.vmaj == 2 && pd.vmin >= 2)) { pd.s.measure = now.measure; pd.s.jl = now.jl; pd.s.maxManip = now.maxManip; pd.s.sd = now.sd; pd.s.sdS = now.sdS; pd.s.sdD = now.sdD; }
            if (pd.s.manip && pd.vmaj == 2 && pd.vmin == 2) { pd.s.sd = false; pd.s.sdS = pd.s.sdD = ""; }
            bool legacyData = legacy && !(doc.vmaj == 2 && doc.vmin >= 5);
            if (pd.vmaj != (legacy ? doc.vmaj : 2) || legacyData || (pd.vmin < 5)) return; // other coding of the voxels
            std::string d = diff(now, pd.s, false);
            if (d != "") sim::violation("wrong-contents", "the loaded map is not what the file says: %s", d.c_str());
            return;
        }
        if (altered) return;
        std::string d = diff(now, expect, false);
        if (d != "") sim::violation("wrong-contents", "loaded (%s, version %d.%d, kind %d) as a different map: %s", what.c_str(), doc.vmaj, doc.vmin, kind, d.c_str());
    }
    else
    {
        if (!mustThrow && !mayThrow && !readFault) sim::violation("spurious-failure", "an intact file (version %d.%d, kind %d, %zu voxels) cannot be loaded: %s", doc.vmaj, doc.vmin, kind, want.vox.size(), e.c_str());
        std::string d = diff(now, prior, true);
        if (d != "") sim::violation("contents-lost", "after a failed load (%s: %s) the object has changed: %s", what.c_str(), e.substr(0, 100).c_str(), d.c_str());
        // the object is still good for loading the intact file
        e = tryLoad(x, good);
        if (e != "") sim::violation("spurious-failure", "after a failed load the intact file cannot be loaded: %s", e.c_str());
        d = diff(x.state(), expect, false);
        if (d != "") sim::violation("wrong-contents", "after a failed load the intact file loads as a different map: %s", d.c_str());
    }
    // what was loaded can be saved and loaded again
    if (!altered && sim::chance(0.5))
    {
        St s = x.state(); std::string again = sim::io::scratch() + "again";
        e = trySave(x, again);
        if (e != "") sim::violation("spurious-failure", "a loaded map (version %d.%d) cannot be saved: %s", doc.vmaj, doc.vmin, e.c_str());
        Map y(r, xkind); e = tryLoad(y, again);
        if (e != "") sim::violation("saved-not-loadable", "a map loaded from version %d.%d and saved again cannot be loaded: %s", doc.vmaj, doc.vmin, e.c_str());
        std::string d = diff(y.state(), s, false, false);
        if (d != "") sim::violation("saved-differs", "a map loaded from version %d.%d and saved again loads as a different map: %s", doc.vmaj, doc.vmin, d.c_str());
    }
}
static void run()
{
    int k = sim::rnd(NR), kind = sim::rnd(3);
    Map m(g_robot[k], kind);
    m.generate(k, sim::chance(0.7) ? 3 : 6);
    if (sim::chance(0.35)) history(m, k, kind);
    if (sim::chance(0.4)) saving(m, k, kind); else loading(m, k, kind);
}
sim::Harness sim::harness = {"C10", setup, run};
