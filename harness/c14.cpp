// C14: robots and objects can be created, loaded, copied and destroyed from many threads.
#include "desc.h"
#include <VirtualRobot/RuntimeEnvironment.h>
#include <VirtualRobot/RobotFactory.h>
#include <VirtualRobot/Random.h>

// nothing here may touch the data paths or the global collision checker: a run is their first use
static void setup() { common::registerStub(); sim::opts().maxGapLog2 = 16; }

struct Part { S kind; std::function<Desc()> make; Desc want; };
struct Named { S type, name; };
static std::vector<Named> g_names; static std::vector<std::pair<int, S>> g_ids; static std::vector<CollisionCheckerPtr> g_checkers; static std::vector<boost::weak_ptr<void>> g_watch;
static RobotPtr g_orig; static ManipulationObjectPtr g_object; static S g_xml, g_xmlType, g_objXml; static std::map<S, Desc> g_want; static int g_threads; static bool g_oomRun;
static void watch(RobotPtr r)
{
    sim::NoPreempt np; g_watch.push_back(r);
    for (auto& n : r->getRobotNodes()) { g_watch.push_back(n); for (auto& s : n->getSensors()) g_watch.push_back(s); if (n->getCollisionModel()) g_watch.push_back(n->getCollisionModel()); }
    for (auto& s : r->getRobotNodeSets()) g_watch.push_back(s); for (auto& e : r->getEndEffectors()) g_watch.push_back(e);
}
static std::vector<std::pair<S, RobotPtr>> g_later;          // robots whose reference is made after the threads
static Desc full(RobotPtr r) { Desc d = robotDesc(r, true, true, true, true, false); d.m("global pose", r->getGlobalPose()); for (auto& n : r->getRobotNodes()) { d.n("joint value of " + n->getName(), n->getJointValue()); d.m("pose of " + n->getName() + " pose", n->getGlobalPose()); } return d; }
static void same(const S& what, const Desc& want, RobotPtr r, const char* who)
{
    sim::NoPreempt np; Desc d = full(r); S x = diff(want, d, 1e-6); if (x != "") sim::violation("other-robot", "%s by %s differs from what a lone caller gets: %s (%d threads)", what.c_str(), who, x.c_str(), g_threads);
    for (auto& n : r->getRobotNodes()) { if (n->getRobot() != r) sim::violation("foreign-node", "%s: node %s belongs to another robot", what.c_str(), n->getName().c_str()); }
    for (auto& s : r->getRobotNodeSets()) { if (s->getRobot() != r) sim::violation("foreign-node", "%s: node set %s belongs to another robot", what.c_str(), s->getName().c_str()); for (auto& n : s->getAllRobotNodes()) if (n->getRobot() != r) sim::violation("foreign-node", "%s: node set %s has a node of another robot", what.c_str(), s->getName().c_str()); }
    for (auto& e : r->getEndEffectors()) if (e->getRobot() != r) sim::violation("foreign-node", "%s: an end effector belongs to another robot", what.c_str());
    sim::probe(("made: " + what).c_str());
}
static const char* const kinds[] = {"clone", "scaled clone", "sub part", "hand", "loaded robot", "robot from a file", "factory clone", "object", "obstacle", "box", "checker", "data paths", "object from a string", "added data path"};
enum { Clone, Scaled, Sub, Hand, Loaded, File, Factory, ObjClone, Obst, Box, Checker, Paths, ObjLoad, AddPath };
struct Op { int kind; bool ownChecker; long oom; };
static S g_subNode; static std::vector<S> g_dataPaths; static std::vector<S> g_added;
static RobotPtr makeOne(const Op& o)
{
    CollisionCheckerPtr cc; if (o.ownChecker) cc.reset(new CollisionChecker());
    switch (o.kind)
    {
        case Clone: return g_orig->clone("copy", cc);
        case Scaled: return g_orig->clone("copy", cc, 1.5f);
        case Sub: return g_orig->extractSubPart(g_orig->getRobotNode(g_subNode), "Part", "part", true, true, cc);
        case Hand: return g_orig->getEndEffector("Hand")->createEefRobot("HandType", "hand", cc);
        case Loaded: return RobotIO::createRobotFromString(g_xml, "");
        case File: return RobotIO::loadRobot("robots/r.xml");
        case Factory: return RobotFactory::clone(g_orig, "copy", cc);
    }
    return RobotPtr();
}
static void doOp(const Op& o, int thread)
{
    S who = "thread " + std::to_string(thread); bool oom = o.oom > 0, fired = false; 
    auto arm = [&] { if (oom) sim::mem::failNew(o.oom, false, 0); }; auto disarm = [&] { fired = oom && sim::mem::fired(); sim::mem::off(); };
    try
    {
        if (o.kind <= Factory)
        {
            RobotPtr r; try { arm(); r = makeOne(o); disarm(); } catch (...) { disarm(); throw; }
            if (!r) { if (fired) return; sim::violation("not-made", "%s by %s: nothing is returned (%d threads)", kinds[o.kind], who.c_str(), g_threads); }
            if (o.kind == Loaded) { sim::NoPreempt np; g_names.push_back({r->getType(), r->getName()}); }
            watch(r);
            if (fired) return;     // string streams swallow bad_alloc: what is returned may lack something
            if (!o.ownChecker || (o.kind == Loaded || o.kind == File)) { sim::NoPreempt np; if (r->getCollisionChecker() != CollisionChecker::getGlobalCollisionChecker()) sim::violation("two-checkers", "%s by %s uses another collision checker than the global one", kinds[o.kind], who.c_str()); }
            if (!g_want.count(kinds[o.kind])) { sim::NoPreempt np; g_later.push_back({kinds[o.kind], r}); return; }     // nobody moves it until then
            same(kinds[o.kind], g_want[kinds[o.kind]], r, who.c_str());
            if (o.kind == Clone && sim::chance(0.5)) { RobotPtr q = r->clone("copy of copy"); watch(q); same(kinds[o.kind], g_want[kinds[o.kind]], q, who.c_str()); }
            r->setGlobalPose(common::randomPose(300));       // a copy of one's own may be moved
        }
        else if (o.kind == ObjClone || o.kind == ObjLoad)
        {
            ManipulationObjectPtr m; try { arm(); m = o.kind == ObjClone ? g_object->clone("Thing") : ObjectIO::createManipulationObjectFromString(g_objXml); disarm(); } catch (...) { disarm(); throw; }
            if (!m) { if (fired) return; sim::violation("not-made", "%s: nothing is returned", kinds[o.kind]); }
            sim::NoPreempt np; g_watch.push_back(m); if (!fired) { Desc d = objectDesc(m); if (!g_want.count(kinds[o.kind])) g_want[kinds[o.kind]] = d; S x = diff(g_want[kinds[o.kind]], d, 1e-6); if (x != "") sim::violation("other-object", "%s by %s differs from what a lone caller gets: %s (%d threads)", kinds[o.kind], who.c_str(), x.c_str(), g_threads); }
            sim::probe(kinds[o.kind]);
        }
        else if (o.kind == Obst)
        {
            ObstaclePtr x; try { arm(); x.reset(new Obstacle("")); disarm(); } catch (...) { disarm(); throw; }
            sim::NoPreempt np; g_ids.push_back({x->getID(), x->getName()}); g_watch.push_back(x); sim::probe("obstacles");
        }
        else if (o.kind == Box)
        {
            ObstaclePtr x; try { arm(); x = Obstacle::createBox(10, 20, 30); disarm(); } catch (...) { disarm(); throw; }
            if (!x) { if (fired) return; sim::violation("not-made", "createBox returns nothing"); }
            sim::NoPreempt np; if (!x->getCollisionModel() || x->getCollisionModel()->getTriMeshModel()->faces.size() != 12) sim::violation("other-object", "a box without its faces is created");
            g_ids.push_back({x->getID(), x->getName()}); g_watch.push_back(x); sim::probe("boxes");
        }
        else if (o.kind == Checker)
        {
            CollisionCheckerPtr c = CollisionChecker::getGlobalCollisionChecker(); sim::NoPreempt np; if (!c) sim::violation("no-checker", "there is no global collision checker"); g_checkers.push_back(c);
        }
        else if (o.kind == AddPath)
        {
            S d, f; { sim::NoPreempt np; f = "own" + std::to_string(g_added.size()) + ".xml"; d = sim::io::scratch() + "extra" + std::to_string(g_added.size()); g_added.push_back(d); mkdir(d.c_str(), 0755); std::ofstream(d + "/" + f) << "x"; }
            bool ok = RuntimeEnvironment::addDataPath(d), bad = RuntimeEnvironment::addDataPath(d + "/none", true); S full = f; bool found = RuntimeEnvironment::getDataFileAbsolute(full);
            sim::NoPreempt np; if (!ok || bad) sim::violation("path-not-added", "a data path is %s", ok ? "added although it does not exist" : "refused"); if (!found || full != d + "/" + f) sim::violation("file-not-found", "a file below an added data path is not found by %s of %d", who.c_str(), g_threads); sim::probe("added-data-paths");
        }
        else
        {
            S f = "robots/r.xml", none = "robots/none.xml"; bool found = RuntimeEnvironment::getDataFileAbsolute(f), bad = RuntimeEnvironment::getDataFileAbsolute(none);
            std::vector<S> p = RuntimeEnvironment::getDataPaths(); sim::NoPreempt np;
            if (!found || f.find("/data/robots/r.xml") == S::npos) sim::violation("file-not-found", "a file below the data path is not found by %s of %d", who.c_str(), g_threads);
            if (bad) sim::violation("file-found", "a missing file is found as %s", none.c_str());
            p.erase(std::remove_if(p.begin(), p.end(), [](const S& x) { return x.find("/extra") != S::npos; }), p.end());
            if (g_dataPaths.empty()) g_dataPaths = p; if (p != g_dataPaths) sim::violation("other-paths", "%zu data paths are reported, another caller got %zu", p.size(), g_dataPaths.size());
            sim::probe("data-paths");
        }
    }
    catch (const std::exception& e) { if (!fired) sim::violation("spurious-failure", "%s by %s throws: %s (%d threads)", kinds[o.kind], who.c_str(), std::string(e.what()).substr(0, 200).c_str(), g_threads); sim::probe("failed-for-memory"); }
}
static S loadedXML(S& withName)
{
    common::RobotSpec s; s.type = "Loaded" + std::to_string(sim::rnd(2)); s.name = "NAME"; s.n = 2 + sim::rnd(3); s.meshes = sim::chance(0.5); s.eef = sim::chance(0.5); s.branchAt = sim::chance(0.3) ? 0 : -1; S x = common::robotXML(s, [] { return sim::runit(); });
    withName = x; S cut = " StandardName='NAME'"; size_t p = x.find(cut); if (p == S::npos) sim::discard("no-name"); x.erase(p, cut.size()); return x;
}
static void run()
{
    sim::opts().allowPreempt = false; bool meshes = sim::chance(0.7), cold = sim::chance(0.35), usesFile = sim::chance(0.6), threadSafe = sim::chance(0.7), hand = false;
    S data = sim::io::scratch() + "data", dir = data + "/robots", named; mkdir(data.c_str(), 0755); mkdir(dir.c_str(), 0755);
    setenv("SIMOX_DATA_PATH", data.c_str(), 1); for (const char* e : {"VIRTUAL_ROBOT_DATA_PATH", "Simox_DIR"}) unsetenv(e);
    g_xml = loadedXML(named); std::vector<int> usable = {Loaded, Loaded, Loaded, Obst, Obst, Box, Checker}; Desc orig;
    if (cold)       // nothing has been used before the threads start
    {
        S r; loadedXML(r); if (usesFile) std::ofstream(dir + "/r.xml") << r;
        g_objXml = "<ManipulationObject name='Thing'><Physics><Mass value='1.5' units='kg'/></Physics><Visualization><Primitives><Box width='10' height='20' depth='30'/></Primitives></Visualization><CollisionModel><Primitives><Sphere radius='12'/></Primitives></CollisionModel></ManipulationObject>";
        usable.push_back(ObjLoad); usable.push_back(Checker); sim::probe("first-use-by-threads");
    }
    else
    {
        g_orig = makeRobot("SimArm", meshes); hand = !g_orig->getEndEffectors().empty();
        std::map<S, float> m; for (auto& n : g_orig->getRobotNodes()) if (n->isRotationalJoint() || n->isTranslationalJoint()) m[n->getName()] = sim::rreal(n->getJointLimitLo(), n->getJointLimitHi()) * 0.5f; g_orig->setJointValues(m); g_orig->setGlobalPose(common::randomPose(1000));
        std::vector<S> names; for (auto& n : g_orig->getRobotNodes()) names.push_back(n->getName()); g_subNode = sim::pick(names);
        g_object = makeObject("Thing"); g_want[kinds[Loaded]] = full(RobotIO::createRobotFromString(named, "")); orig = full(g_orig);
        if (usesFile) { RobotPtr f = makeRobot("FileArm", meshes); if (!RobotIO::saveXML(f, "r.xml", dir, "models", true, true, true, true)) sim::violation("spurious-failure", "a robot is not saved"); }
        for (int k : {Clone, Clone, Scaled, Sub, Factory, ObjClone}) usable.push_back(k); if (hand) usable.push_back(Hand);
        Op o; o.ownChecker = false; o.oom = 0;
        for (int k : {Clone, Scaled, Sub, Hand, Factory}) if (k != Hand || hand) { o.kind = k; RobotPtr r = makeOne(o); g_want[kinds[k]] = full(r); if (k == Clone || k == Factory) { S x = diff(orig, g_want[kinds[k]], 1e-6); if (x != "") sim::violation("clone-differs", "a copy differs from its original: %s", x.c_str()); } }
        g_want[kinds[ObjClone]] = objectDesc(g_object->clone("Thing")); S x = diff(objectDesc(g_object), g_want[kinds[ObjClone]], 1e-6); if (x != "") sim::violation("clone-differs", "a copy of an object differs from its original: %s", x.c_str());
        g_orig->setThreadsafe(threadSafe);
    }
    if (usesFile) for (int k : {File, File, Paths, Paths, AddPath, AddPath}) usable.push_back(k);
    g_threads = sim::rint(2, 4); g_oomRun = sim::chance(0.2); std::vector<std::vector<Op>> ops(g_threads); S desc;
    int focus = sim::chance(0.4) ? sim::pick(usable) : -1;
    for (auto& t : ops) { int n = sim::rint(1, 4); for (int i = 0; i < n; i++) { Op x; x.kind = focus >= 0 && sim::chance(0.7) ? focus : sim::pick(usable); x.ownChecker = sim::chance(0.4); x.oom = g_oomRun && x.kind != File && sim::chance(0.4) ? (long)std::exp(sim::rreal(0, 7)) : 0; t.push_back(x); desc += S(kinds[x.kind]) + (x.oom ? "!, " : ", "); } desc += "| "; }
    sim::sample("%d threads, %s, meshes %d, thread-safe original %d: %s", g_threads, cold ? "first use" : "warm", meshes, threadSafe, desc.c_str());
    sim::nontrivial(); sim::opts().allowPreempt = true; sim::setStepLimit(2000000000, "creating and copying robots");
    for (int t = 0; t < g_threads; t++) sim::spawn([t, &ops] { VirtualRobot::PRNG64Bit().seed(sim::rnd()); for (auto& x : ops[t]) doOp(x, t); });
    sim::joinAll(); sim::clearStepLimit();
    sim::NoPreempt np;
    // the reference of what was used by the threads first: one more, made alone
    for (auto& l : g_later) { if (!g_want.count(l.first)) g_want[l.first] = full(l.first == kinds[File] ? RobotIO::loadRobot("robots/r.xml") : RobotIO::createRobotFromString(named, "")); same(l.first, g_want[l.first], l.second, "a thread"); }
    for (size_t i = 0; i < g_names.size(); i++) for (size_t j = 0; j < i; j++) if (g_names[i].name == g_names[j].name) sim::violation("same-name", "two robots of type %s get the name %s (%d threads)", g_names[i].type.c_str(), g_names[i].name.c_str(), g_threads);
    for (size_t i = 0; i < g_ids.size(); i++) for (size_t j = 0; j < i; j++) if (g_ids[i].first == g_ids[j].first) sim::violation("same-id", "two obstacles get the id %d (%s, %s) (%d threads)", g_ids[i].first, g_ids[i].second.c_str(), g_ids[j].second.c_str(), g_threads);
    for (auto& c : g_checkers) if (c != CollisionChecker::getGlobalCollisionChecker()) sim::violation("two-checkers", "two threads get different global collision checkers");
    if (!g_added.empty()) { std::vector<S> p = RuntimeEnvironment::getDataPaths(); for (auto& d : g_added) if (std::count(p.begin(), p.end(), d) != 1) sim::violation("path-lost", "an added data path is listed %d times (%d threads)", (int)std::count(p.begin(), p.end(), d), g_threads); }
    // the original is what it was, and nothing stays locked
    if (g_orig)
    {
        Desc d = full(g_orig); S x = diff(orig, d, 0); if (x != "") sim::violation("original-changed", "copying changed the original: %s", x.c_str());
        sim::Preempt pr; bool got = false; sim::spawn([&] { auto l = g_orig->getWriteLock(); got = true; }); sim::joinAll(); if (!got) sim::violation("lock-left", "the original stays locked");
    }
    // whatever was dropped is gone
    g_later.clear(); g_orig.reset(); g_object.reset(); g_checkers.clear();
    if (!g_oomRun) for (auto& w : g_watch) if (!w.expired()) sim::violation("not-destroyed", "a part of a destroyed robot or object still exists");
    sim::event("made", g_watch.size());
}
sim::Harness sim::harness = {"C14", setup, run};
