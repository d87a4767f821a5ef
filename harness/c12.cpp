// C12: a saved robot, scene or object file is complete or the save fails.
#include "desc.h"
// ---- generated objects -----------------------------------------------------------------------
static void setup() { common::registerStub(); CollisionChecker::getGlobalCollisionChecker(); sim::opts().maxGapLog2 = 18; }
static S slurp(const S& fn) { sim::io::Plan keep = sim::io::plan(); sim::io::plan() = sim::io::Plan(); S r; { std::ifstream f(fn, std::ios::binary); std::stringstream b; b << f.rdbuf(); r = b.str(); } sim::io::plan() = keep; return r; }
// everything below a directory
static S tree(const S& dir, const S& xml)
{
    S r = slurp(dir + "/" + xml) + "\n----\n"; std::map<S, S> fs;
    if (boost::filesystem::exists(dir + "/models")) for (auto& e : boost::filesystem::directory_iterator(dir + "/models")) fs[e.path().filename().string()] = slurp(e.path().string());
    for (auto& f : fs) r += f.first + ":" + f.second + "\n----\n";
    return r;
}
struct Case
{
    S what, xml; std::function<bool(const S& dir)> save; std::function<Desc(const S& dir)> load; std::function<Desc()> now; Desc want; std::function<void()> change;
};
// a later change: the next file must show it
static void changeThing(SceneObjectPtr o) { switch (sim::rnd(3)) { case 0: o->setGlobalPose(common::randomPose(1000)); break; case 1: o->setMass(sim::rreal(0.1, 10)); break; default: o->setFriction(sim::rreal(0, 1)); } }
static void changeObject(ManipulationObjectPtr o)
{
    auto gs = o->getAllGraspSets(); GraspSetPtr g; if (!gs.empty()) g = sim::pick(gs);
    std::vector<GraspPtr> xs; if (g) xs = g->getGrasps();
    int k = sim::rnd(6);
    if (k < 3 && !xs.empty())
    {
        GraspPtr x = sim::pick(xs);
        switch (sim::rnd(6))
        {
            case 0: x->setTransformation(common::randomPose(200)); break;
            case 1: x->setQuality(sim::rreal(0.1, 1)); break;
            case 2: x->setPreshape(x->getPreshapeName() == "Open" ? "Closed" : "Open"); break;
            case 3: { std::map<S, float> m; m["F1"] = sim::rreal(-1, 1); x->setConfiguration(m); break; }
            case 4: g->removeGrasp(x); break;
            default: x->setName(x->getName() + "x");
        }
    }
    else if (k == 3 && g) g->addGrasp(GraspPtr(new Grasp("Grasp " + std::to_string(100 + sim::rnd(1000)), g->getRobotType(), g->getEndEffector(), common::randomPose(200), "later", 0.5f)));
    else changeThing(o);
}
static void changeRobot(RobotPtr r)
{
    std::vector<RobotNodePtr> js, all = r->getRobotNodes(); for (auto& n : all) if (n->isRotationalJoint() || n->isTranslationalJoint()) js.push_back(n);
    RobotNodePtr n = sim::pick(js);
    switch (sim::rnd(7))
    {
        case 6: { Eigen::Matrix4f t = tiny(); sim::pick(all)->setLocalTransformation(t); break; }
        case 0: n->setMaxVelocity(sim::rreal(0.1, 5)); break;
        case 1: n->setMaxTorque(sim::rreal(1, 500)); break;
        case 2: n->setMaxAcceleration(sim::rreal(0.1, 5)); break;
        case 3: if (!n->isLimitless()) n->setJointLimits(n->getJointLimitLo() - 0.1f * (1 + sim::rnd(4)), n->getJointLimitHi()); break;
        case 4: sim::pick(all)->setFriction(sim::rreal(0, 1)); break;
        default: n->setJointValue(sim::rreal(n->getJointLimitLo(), n->getJointLimitHi())); r->setGlobalPose(common::randomPose(500));   // neither is in the file
    }
}
static void changeScene(ScenePtr s)
{
    auto rs = s->getRobots(); auto os = s->getManipulationObjects(); auto bs = s->getObstacles(); auto ts = s->getTrajectories();
    switch (sim::rnd(5))
    {
        case 0: if (!rs.empty()) sim::pick(rs)->setGlobalPose(common::randomPose(2000)); break;
        case 1: if (!os.empty()) sim::pick(os)->setGlobalPose(common::randomPose(1000)); break;
        case 2: if (!bs.empty()) changeThing(sim::pick(bs)); break;
        case 3: if (!ts.empty()) { auto t = sim::pick(ts); Eigen::VectorXf p(t->getRobotNodeSet()->getSize()); for (int j = 0; j < p.size(); j++) p[j] = sim::rreal(-2, 2); t->addPoint(p); } break;
        default: if (!rs.empty()) { auto r = sim::pick(rs); auto cs = s->getRobotConfigs(r); if (!cs.empty()) s->deRegisterRobotConfig(r, sim::pick(cs)); }
    }
}
static Case makeCase(int kind, const S& home)
{
    Case c;
    if (kind == 0)
    {
        ManipulationObjectPtr o = makeObject("Thing"); c.what = "object"; c.xml = "o.xml";
        c.save = [o](const S& d) { return ObjectIO::saveManipulationObject(o, d + "/o.xml"); };
        c.load = [](const S& d) { ManipulationObjectPtr o = ObjectIO::loadManipulationObject(d + "/o.xml"); if (!o) throw std::runtime_error("no object"); return objectDesc(o); };
        c.now = [o] { return objectDesc(o); };
        c.change = [o] { changeObject(o); };
    }
    else if (kind == 1)
    {
        bool withModels = sim::chance(0.5), meshes = withModels || sim::chance(0.3), eef = sim::chance(0.8), sets = sim::chance(0.9), sensors = sim::chance(0.8);
        RobotPtr r = makeRobot("SimArm", meshes); c.what = S("robot") + (withModels ? " with model files" : ""); c.xml = "r.xml";
        c.save = [=](const S& d) { return RobotIO::saveXML(r, "r.xml", d, "models", eef, sets, sensors, withModels); };
        // (where a hand with meshes stops depends on the last digit)
        auto desc = [=](RobotPtr x) { Desc y = robotDesc(x, eef, sets, sensors, withModels, meshes && !withModels); motions(y, x, eef && !meshes); return y; };
        c.load = [=](const S& d) { RobotPtr x = RobotIO::loadRobot(d + "/r.xml"); if (!x) throw std::runtime_error("no robot"); return desc(x); };
        c.now = [=] { return desc(r); };
        c.change = [r] { changeRobot(r); };
    }
    else if (kind == 2)
    {
        ScenePtr s(new Scene("World")); int nr = sim::rnd(3);
        for (int i = 0; i < nr; i++)
        {
            S type = "Arm" + std::to_string(i); RobotPtr made = makeRobot(type, false);
            if (!RobotIO::saveXML(made, type + ".xml", home, "models")) sim::violation("spurious-failure", "a robot is not saved");
            RobotPtr r; try { r = RobotIO::loadRobot(home + "/" + type + ".xml"); } catch (VirtualRobotException& e) { sim::violation("saved-not-loadable", "a saved robot cannot be loaded: %s", e.what()); }
            if (!r) sim::violation("saved-not-loadable", "a saved robot cannot be loaded");
            auto values = [&] { std::map<S, float> m; for (auto& n : r->getRobotNodes()) if (n->isRotationalJoint() || n->isTranslationalJoint()) m[n->getName()] = sim::chance(0.2) && n->getJointLimitLo() <= 0 && n->getJointLimitHi() >= 0 ? 0 : sim::rreal(n->getJointLimitLo(), n->getJointLimitHi()); return m; };
            bool prop = false; { auto m = values(); r->setJointValues(m); for (auto& x : m) if (std::fabs(r->getRobotNode(x.first)->getJointValue() - x.second) > 1e-6) prop = true; }
            if (prop) { std::map<S, float> z; for (auto& x : values()) z[x.first] = 0; r->setJointValues(z); }
            if (sim::chance(0.7)) r->setGlobalPose(common::randomPose(2000));
            s->registerRobot(r);
            int nc = sim::rnd(3); for (int k = 0; k < nc; k++) { RobotConfigPtr q = makeConfig(r, "Config" + std::to_string(k), values()); if (sim::chance(0.4)) q->setTCP("TCP"); s->registerRobotConfig(r, q); }
            if (sim::chance(0.5)) { RobotNodeSetPtr rns = r->getRobotNodeSet("Arm"); TrajectoryPtr t(new Trajectory(rns, "Path" + std::to_string(i))); int np = sim::rnd(5); for (int k = 0; k < np; k++) { Eigen::VectorXf p(rns->getSize()); for (int j = 0; j < p.size(); j++) p[j] = sim::rreal(-2, 2); t->addPoint(p); } s->registerTrajectory(t); }
        }
        int no = sim::rnd(3), nb = sim::rnd(3); std::vector<SceneObjectPtr> all;
        for (int i = 0; i < no; i++)
        {
            ManipulationObjectPtr o = makeObject("Thing" + std::to_string(i));
            if (sim::chance(0.4))
            {
                S fn = home + "/thing" + std::to_string(i) + ".xml"; if (!ObjectIO::saveManipulationObject(o, fn)) sim::violation("spurious-failure", "an object is not saved");
                try { o = ObjectIO::loadManipulationObject(fn); } catch (VirtualRobotException& e) { sim::violation("saved-not-loadable", "a saved object cannot be loaded: %s", e.what()); }
                if (sim::chance(0.7)) o->setGlobalPose(common::randomPose(1000));
            }
            s->registerManipulationObject(o); all.push_back(o);
        }
        for (int i = 0; i < nb; i++) { ObstaclePtr o = makeObstacle("Wall" + std::to_string(i)); s->registerObstacle(o); all.push_back(o); }
        if (!all.empty() && sim::chance(0.5)) { SceneObjectSetPtr x(new SceneObjectSet("Set")); for (auto& o : all) if (sim::chance(0.6)) x->addSceneObject(o); s->registerSceneObjectSet(x); }
        c.what = "scene"; c.xml = "s.xml";
        c.save = [s](const S& d) { return SceneIO::saveScene(s, d + "/s.xml"); };
        c.load = [](const S& d) { ScenePtr x = SceneIO::loadScene(d + "/s.xml"); if (!x) throw std::runtime_error("no scene"); return sceneDesc(x); };
        c.now = [s] { return sceneDesc(s); };
        c.change = [s] { changeScene(s); };
    }
    else
    {
        TriMeshModelPtr t(new TriMeshModel()); int n = 1 + sim::rnd(3); for (int i = 0; i < n; i++) common::addBox(t, sim::rint(1, 90), sim::rint(1, 90), sim::rreal(1, 90), common::randomPose(100));
        float sc = sim::chance(0.5) ? 1 : 0.001; c.what = "mesh"; c.xml = "m.stl";
        auto desc = [](TriMeshModelPtr m, float f) { Desc d; d.n("faces", m->faces.size()); for (size_t i = 0; i < m->faces.size(); i++) for (unsigned int id : {m->faces[i].id1, m->faces[i].id2, m->faces[i].id3}) d.m("face " + std::to_string(i), m->vertices[id] * f); return d; };
        c.save = [t, sc](const S& d) { return ObjectIO::writeSTL(t, d + "/m.stl", "thing", sc); };
        c.load = [sc, desc](const S& d) { TriMeshModelPtr m(new TriMeshModel()); STLReader r; if (!r.read(d + "/m.stl", m)) throw std::runtime_error("not read"); return desc(m, 1 / sc); };
        c.now = [t, desc] { return desc(t, 1); };
        c.change = [t] { if (sim::chance(0.5)) common::addBox(t, sim::rint(1, 90), sim::rint(1, 90), sim::rreal(1, 90), common::randomPose(100)); else sim::pick(t->vertices) += Eigen::Vector3f(3, 2, 1); };
    }
    c.want = c.now();
    return c;
}
static void run()
{
    S home = sim::io::scratch() + "home", dir = home; mkdir(home.c_str(), 0755);
    int kind = sim::rnd(20); kind = kind < 6 ? 0 : kind < 13 ? 1 : kind < 18 ? 2 : 3;
    Case c = makeCase(kind, home);
    auto& pl = sim::io::plan(); pl = sim::io::Plan();
    // a lone save on a healthy disk
    S good; { if (!c.save(dir)) sim::violation("spurious-failure", "saving a %s fails without any fault", c.what.c_str()); good = tree(dir, c.xml); }
    { Desc n = c.now(); S d = diff(c.want, n, 0); if (d != "") sim::violation("saving-changes-object", "saving changed the %s: %s", c.what.c_str(), d.c_str()); }
    size_t size = good.size();
    auto mayLoad = [&](const char* when) { try { Desc l = c.load(dir); S d = diff(c.want, l); if (d != "") { sim::log("file:"); for (size_t p = 0; p < good.size(); p += 400) sim::log("%s", good.substr(p, 400).c_str()); sim::violation("saved-differs", "a saved %s is loaded (%s) as a different one: %s", c.what.c_str(), when, d.c_str()); } }
        catch (std::exception& e) { sim::log("file:"); for (size_t p = 0; p < good.size(); p += 400) sim::log("%s", good.substr(p, 400).c_str()); sim::violation("saved-not-loadable", "a saved %s cannot be loaded (%s): %s", c.what.c_str(), when, e.what()); } };
    mayLoad("after a good save");
    int rounds = 1 + sim::rnd(3); S hist;
    for (int r = 0; r < rounds; r++)
    {
        if (sim::chance(0.35))
        {
            // the thing is changed, or stored somewhere else
            if (sim::chance(0.8)) { c.change(); c.want = c.now(); hist += " | changed"; } else { dir = sim::io::scratch() + "home" + std::to_string(r); mkdir(dir.c_str(), 0755); hist += " | elsewhere"; }
            sim::io::resetStats();
            if (!c.save(dir)) sim::violation("spurious-failure", "saving a %s again (%s) fails without any fault", c.what.c_str(), hist.c_str());
            good = tree(dir, c.xml); size = good.size(); mayLoad("saved again"); sim::probe("saved-after-change");
        }
        if (sim::chance(0.3)) { boost::filesystem::remove(dir + "/" + c.xml); if (sim::chance(0.6)) boost::filesystem::remove_all(dir + "/models"); }
        int f = sim::rnd(9); bool oom = false, threads = false; S what = "none"; pl = sim::io::Plan();
        size_t at = sim::chance(0.5) ? sim::rnd(size + 2) : sim::chance(0.5) ? size - std::min<size_t>(size, sim::rnd(40)) : sim::rnd(slurp(dir + "/" + c.xml).size() + 2);
        if (f == 0) { pl.capacity = at; what = "disk full after " + std::to_string(at) + " of " + std::to_string(size); }
        else if (f == 1) { pl.eioWriteAt = at; pl.eioOnce = sim::chance(0.3); what = "write error at " + std::to_string(at) + " of " + std::to_string(size); }
        else if (f == 2) { pl.failClose = true; what = "close fails"; }
        else if (f == 3) { pl.failOpen = true; what = "open fails"; }
        else if (f == 4) { oom = true; what = "out of memory"; }
        else if (f == 5) threads = true;
        if (sim::chance(0.4)) { pl.shortWriteP = 0.8 * sim::runit(); pl.eintrP = sim::chance(0.5) ? 0.3 * sim::runit() : 0; }
        hist += " | " + what; sim::sample("%s, %zu bytes:%s", c.what.c_str(), size, hist.c_str());
        sim::io::resetStats(); sim::setStepLimit(80000000, "saving");
        bool ok = false, threw = false; S err;
        auto call = [&] { try { ok = c.save(dir); } catch (std::bad_alloc&) { threw = true; err = "bad_alloc"; } catch (std::exception& e) { threw = true; err = e.what(); } };
        if (threads)
        {
            // another thread saves something of its own
            S other = sim::io::scratch() + "other" + std::to_string(r); mkdir(other.c_str(), 0755); int k2 = sim::chance(0.5) ? kind : (int)sim::rnd(4); Case b = makeCase(k2, other); bool ok2 = false;
            int id = sim::spawn([&] { ok2 = b.save(other); }); call(); sim::join(id);
            sim::clearStepLimit();
            if (!ok2) sim::violation("spurious-failure", "saving a %s next to another thread fails", b.what.c_str());
            try { S d = diff(b.want, b.load(other)); if (d != "") sim::violation("saved-differs", "a %s saved next to another thread differs: %s", b.what.c_str(), d.c_str()); }
            catch (std::exception& e) { sim::violation("saved-not-loadable", "a %s saved next to another thread cannot be loaded: %s", b.what.c_str(), e.what()); }
            what = "another thread saving";
        }
        else if (oom) { sim::mem::failNew(sim::rnd(sim::chance(0.5) ? 40 : 2000), sim::chance(0.5)); call(); sim::mem::off(); }
        else call();
        sim::clearStepLimit();
        bool wf = sim::io::stats().writeFaults > 0; bool fault = wf || pl.failClose || pl.failOpen || oom; long opens = sim::io::stats().opens, closes = sim::io::stats().closes; pl = sim::io::Plan();
        sim::nontrivial(); sim::probe(ok ? fault ? "saved-despite-fault" : "saved" : threw ? "threw" : "failed"); sim::probe(c.what.c_str());
        if (opens != closes) sim::violation("handle-leak", "%ld files opened, %ld closed (%s)", opens, closes, what.c_str());
        if (ok && !threw)
        {
            S got = tree(dir, c.xml);
            if (got != good && oom) sim::probe("incomplete-without-memory");   // string streams swallow bad_alloc; outside the statement, see DESIGN.md
            else if (got != good) sim::violation("incomplete-file", "saving a %s succeeded (%s), but the file%s have %zu instead of %zu bytes or differ", c.what.c_str(), what.c_str(), c.what.size() > 6 ? "s" : "", got.size(), good.size());
            if (!oom && sim::chance(0.2)) mayLoad(what.c_str());
        }
        else if (!fault) sim::violation("spurious-failure", "saving a %s fails without any fault (%s): %s", c.what.c_str(), what.c_str(), err.c_str());
        Desc n = c.now(); S d = diff(c.want, n, 0); if (d != "") sim::violation("saving-changes-object", "saving (%s) changed the %s: %s", what.c_str(), c.what.c_str(), d.c_str());
        if (!ok || oom)
        {
            if (!c.save(dir)) sim::violation("spurious-failure", "saving a %s again after a failure (%s) fails", c.what.c_str(), what.c_str());
            if (tree(dir, c.xml) != good) sim::violation("incomplete-file", "saving a %s again after a failure (%s) gives other files", c.what.c_str(), what.c_str());
        }
    }
    // reading back through a failing disk or a file cut short: never a smaller thing
    if (sim::chance(0.5))
    {
        S fn = dir + "/" + c.xml, all = slurp(fn); S what; bool cut = sim::chance(0.5);
        if (cut) { size_t n = sim::rnd(all.size()); std::ofstream(fn, std::ios::binary) << all.substr(0, n); what = "cut after " + std::to_string(n) + " of " + std::to_string(all.size()) + " bytes"; sim::fault::note("file-truncated"); }
        else { pl.eioReadAt = sim::rnd(all.size()); pl.shortReadP = 0.5; what = "read error at " + std::to_string(pl.eioReadAt) + " of " + std::to_string(all.size()); }
        sim::setStepLimit(80000000, "loading");
        try { Desc l = c.load(dir); pl = sim::io::Plan(); S d = diff(c.want, l); if (d != "") sim::violation("damaged-accepted", "a %s file (%s) is loaded as: %s", c.what.c_str(), what.c_str(), d.c_str()); sim::probe("damaged-but-complete"); }
        catch (std::exception&) { sim::probe("damaged-rejected"); }
        sim::clearStepLimit(); pl = sim::io::Plan();
    }
}
sim::Harness sim::harness = {"C12", setup, run};
