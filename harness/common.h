// Shared fixtures of the harnesses: stub visualisation (triangle meshes instead of scene graphs),
// generated robots and environments.
#pragma once
#include "../sim/sim.h"
#include <VirtualRobot/VirtualRobot.h>
#include <VirtualRobot/VirtualRobotException.h>
#include <VirtualRobot/Robot.h>
#include <VirtualRobot/RobotNodeSet.h>
#include <VirtualRobot/RobotConfig.h>
#include <VirtualRobot/Nodes/RobotNode.h>
#include <VirtualRobot/Obstacle.h>
#include <VirtualRobot/ManipulationObject.h>
#include <VirtualRobot/SceneObjectSet.h>
#include <VirtualRobot/XML/RobotIO.h>
#include <VirtualRobot/CollisionDetection/CollisionChecker.h>
#include <VirtualRobot/CollisionDetection/CollisionModel.h>
#include <VirtualRobot/CollisionDetection/CDManager.h>
#include <VirtualRobot/Visualization/VisualizationFactory.h>
#include <VirtualRobot/Visualization/VisualizationNode.h>
#include <VirtualRobot/Visualization/TriMeshModel.h>
#include <VirtualRobot/Primitive.h>
#include <sstream>
#include <fstream>
#include <iomanip>
#include <cmath>

namespace common
{
    using namespace VirtualRobot;

    inline void addBox(TriMeshModelPtr m, float w, float h, float d, const Eigen::Matrix4f& t = Eigen::Matrix4f::Identity())
    {
        Eigen::Vector3f v[8];
        for (int i = 0; i < 8; i++)
        {
            Eigen::Vector4f p((i & 1 ? .5f : -.5f) * w, (i & 2 ? .5f : -.5f) * h, (i & 4 ? .5f : -.5f) * d, 1);
            v[i] = (t * p).head(3);
        }
        static const int q[6][4] = {{0, 2, 3, 1}, {4, 5, 7, 6}, {0, 1, 5, 4}, {2, 6, 7, 3}, {0, 4, 6, 2}, {1, 3, 7, 5}};
        for (auto& f : q)
        {
            m->addTriangleWithFace(v[f[0]], v[f[1]], v[f[2]]);
            m->addTriangleWithFace(v[f[0]], v[f[2]], v[f[3]]);
        }
    }
    inline void addSphere(TriMeshModelPtr m, float r, const Eigen::Matrix4f& t = Eigen::Matrix4f::Identity(), int nu = 8, int nv = 4)
    {
        auto pt = [&](int i, int j)
        {
            double a = 2 * M_PI * i / nu, b = M_PI * j / nv;
            Eigen::Vector4f p(r * sin(b) * cos(a), r * sin(b) * sin(a), r * cos(b), 1);
            return Eigen::Vector3f((t * p).head(3));
        };
        for (int i = 0; i < nu; i++)
            for (int j = 0; j < nv; j++)
            {
                if (j > 0) m->addTriangleWithFace(pt(i, j), pt(i, j + 1), pt(i + 1, j));
                if (j < nv - 1) m->addTriangleWithFace(pt(i + 1, j), pt(i, j + 1), pt(i + 1, j + 1));
            }
    }
    inline void addCylinder(TriMeshModelPtr m, float r, float h, const Eigen::Matrix4f& t = Eigen::Matrix4f::Identity(), int n = 8)
    {
        auto pt = [&](int i, float z) { double a = 2 * M_PI * i / n; Eigen::Vector4f p(r * cos(a), z, r * sin(a), 1); return Eigen::Vector3f((t * p).head(3)); };
        Eigen::Vector3f c0 = (t * Eigen::Vector4f(0, -h / 2, 0, 1)).head(3), c1 = (t * Eigen::Vector4f(0, h / 2, 0, 1)).head(3);
        for (int i = 0; i < n; i++)
        {
            m->addTriangleWithFace(pt(i, -h / 2), pt(i, h / 2), pt(i + 1, -h / 2));
            m->addTriangleWithFace(pt(i + 1, -h / 2), pt(i, h / 2), pt(i + 1, h / 2));
            m->addTriangleWithFace(c0, pt(i, -h / 2), pt(i + 1, -h / 2));
            m->addTriangleWithFace(c1, pt(i + 1, h / 2), pt(i, h / 2));
        }
    }

    // A visualisation which is nothing but its triangle mesh.
    class StubVis : public VisualizationNode
    {
    public:
        TriMeshModelPtr mesh;
        StubVis(TriMeshModelPtr m) : mesh(m) {}
        TriMeshModelPtr getTriMeshModel() override { return mesh; }
        int getNumFaces() override { return mesh ? (int)mesh->faces.size() : 0; }
        std::string getType() override { return "inventor"; }
        void shrinkFatten(float offset) override { if (offset != 0 && mesh) mesh->fattenShrink(offset, true); }
        VisualizationNodePtr clone(bool deep = true, float scaling = 1.0f) override
        {
            boost::shared_ptr<StubVis> r(new StubVis(scaling != 1.0f ? mesh->clone(Eigen::Vector3f(scaling, scaling, scaling)) : deep ? mesh->clone() : mesh));
            r->setUpdateVisualization(updateVisualization);
            r->setGlobalPose(getGlobalPose());
            r->setFilename(getFilename(), usedBoundingBoxVisu());
            r->primitives = primitives;
            return r;
        }
        // (a stand-in for the exporters of the real visualisations)
        bool saveModel(const std::string& path, const std::string& fn) override
        {
            std::ofstream f(path + "/" + fn);
            f << "STUBMESH " << (mesh ? mesh->faces.size() : 0) << "\n" << std::setprecision(9);
            if (mesh) for (auto& t : mesh->faces) for (unsigned int id : {t.id1, t.id2, t.id3}) f << mesh->vertices[id].transpose() << "\n";
            f.close();
            return bool(f);
        }
        static TriMeshModelPtr loadModel(const std::string& fn)
        {
            std::ifstream f(fn); std::string k; size_t n; TriMeshModelPtr m;
            if (!(f >> k >> n) || k != "STUBMESH") return m;
            m.reset(new TriMeshModel());
            for (size_t i = 0; i < n; i++) { Eigen::Vector3f v[3]; for (auto& p : v) f >> p[0] >> p[1] >> p[2]; if (!f) return TriMeshModelPtr(); m->addTriangleWithFace(v[0], v[1], v[2]); }
            return m;
        }
    };
    class StubFactory : public VisualizationFactory
    {
    public:
        static TriMeshModelPtr newMesh() { return TriMeshModelPtr(new TriMeshModel()); }
        VisualizationNodePtr getVisualizationFromPrimitives(const std::vector<Primitive::PrimitivePtr>& ps, bool = false, Color = Color::Gray()) override
        {
            TriMeshModelPtr m = newMesh();
            for (auto& p : ps)
            {
                if (p->type == Primitive::Box::TYPE) { auto* b = static_cast<Primitive::Box*>(p.get()); addBox(m, b->width, b->height, b->depth, p->transform); }
                else if (p->type == Primitive::Sphere::TYPE) addSphere(m, static_cast<Primitive::Sphere*>(p.get())->radius, p->transform);
                else if (p->type == Primitive::Cylinder::TYPE) { auto* c = static_cast<Primitive::Cylinder*>(p.get()); addCylinder(m, c->radius, c->height, p->transform); }
            }
            VisualizationNodePtr v(new StubVis(m));
            v->primitives = ps;
            return v;
        }
        VisualizationNodePtr getVisualizationFromFile(const std::string& f, bool bb = false, float sx = 1, float sy = 1, float sz = 1) override
        {
            TriMeshModelPtr m = StubVis::loadModel(f);
            if (m) { VisualizationNodePtr v(new StubVis(m)); v->setFilename(f, bb); return v; }
            m = newMesh();
            size_t h = std::hash<std::string>()(f.substr(f.find_last_of("/") + 1));
            addBox(m, (20 + h % 30) * sx, (20 + h / 30 % 30) * sy, (20 + h / 900 % 30) * sz);
            VisualizationNodePtr v(new StubVis(m));
            v->setFilename(f, bb);
            return v;
        }
        VisualizationNodePtr createBox(float w, float h, float d, float = .5f, float = .5f, float = .5f) override
        { TriMeshModelPtr m = newMesh(); addBox(m, w, h, d); VisualizationNodePtr v(new StubVis(m)); Primitive::PrimitivePtr p(new Primitive::Box(w, h, d)); v->primitives.push_back(p); return v; }
        VisualizationNodePtr createSphere(float r, float = .5f, float = .5f, float = .5f) override
        { TriMeshModelPtr m = newMesh(); addSphere(m, r); VisualizationNodePtr v(new StubVis(m)); Primitive::PrimitivePtr p(new Primitive::Sphere(r)); v->primitives.push_back(p); return v; }
        VisualizationNodePtr createCylinder(float r, float h, float = .5f, float = .5f, float = .5f) override
        { TriMeshModelPtr m = newMesh(); addCylinder(m, r, h); return VisualizationNodePtr(new StubVis(m)); }
        VisualizationNodePtr createTriMeshModelVisualization(TriMeshModelPtr model, Eigen::Matrix4f&, float = 1, float = 1, float = 1) override { return VisualizationNodePtr(new StubVis(model)); }
        VisualizationNodePtr createTriMeshModelVisualization(TriMeshModelPtr model, bool, Eigen::Matrix4f&, bool = true) override { return VisualizationNodePtr(new StubVis(model)); }
        VisualizationNodePtr createVisualization() override { return VisualizationNodePtr(new StubVis(newMesh())); }
        VisualizationNodePtr createUnitedVisualization(const std::vector<VisualizationNodePtr>& vs) const override
        { TriMeshModelPtr m = newMesh(); for (auto& v : vs) if (v && v->getTriMeshModel()) m->addMesh(*v->getTriMeshModel()); return VisualizationNodePtr(new StubVis(m)); }
        static boost::shared_ptr<VisualizationFactory> createInstance(void*) { return boost::shared_ptr<VisualizationFactory>(new StubFactory()); }
    };
    inline void registerStub() { static bool done = false; if (!done) { VisualizationFactory::registerClass("inventor", &StubFactory::createInstance); done = true; } }

    // ---- generated robots ------------------------------------------------------------------------
    struct JointSpec { bool prismatic; double ax, ay, az, lo, hi, tx, ty, tz, roll, pitch, yaw; bool limitless; };
    struct RobotSpec
    {
        std::string type = "SimArm", name = "SimArm";
        int n = 4;                      // joints of the main chain  (J0..Jn-1, TCP)
        int branchAt = -1;              // second chain of 2 joints (B0,B1) below joint branchAt
        bool meshes = true;
        double link = 100, width = 20;
        bool prismaticToo = true;
        std::string propFrom, propTo; double propFactor = 0;
        bool mass = true;
        bool eef = false;               // gripper: two actors with one joint each
        bool fingerMeshes = true;       // (also when meshes is off)
        bool planar = false;            // all axes z, translations along x (planar arm)
        double limit = 2.5;             // joint limits +-limit (rad)
        bool limitless0 = false;        // the first joint turns without limits
    };
    inline std::string num(double v) { char b[40]; snprintf(b, sizeof b, "%.6f", v); return b; }
    // rnd: source of randomness in [0,1)
    template <class R> std::string robotXML(const RobotSpec& s, R rnd)
    {
        std::stringstream x;
        auto tf = [&](double a, double b, double c, double r, double p, double y) { return "<Transform><Translation x='" + num(a) + "' y='" + num(b) + "' z='" + num(c) + "'/><rollpitchyaw unitsAngle='degree' roll='" + num(r) + "' pitch='" + num(p) + "' yaw='" + num(y) + "'/></Transform>"; };
        auto mesh = [&](double len)
        {
            if (!s.meshes) return std::string();
            std::string p = "<Primitives><Box width='" + num(len) + "' height='" + num(s.width) + "' depth='" + num(s.width) + "'><Transform><Translation x='" + num(len * 0.5) + "' y='0' z='0'/></Transform></Box></Primitives>";
            return "<Visualization enable='true'>" + p + "</Visualization><CollisionModel>" + p + "</CollisionModel>";
        };
        auto phys = [&]() { return s.mass ? "<Physics><Mass value='" + num(0.5 + rnd() * 2) + "' units='kg'/><CoM location='Custom' x='" + num(rnd() * 50) + "' y='" + num(rnd() * 20) + "' z='0' units='mm'/><InertiaMatrix unitsWeight='kg' unitsLength='m'><row1 c1='0.01' c2='0' c3='0'/><row2 c1='0' c2='0.01' c3='0'/><row3 c1='0' c2='0' c3='0.01'/></InertiaMatrix></Physics>" : std::string(); };
        x << "<Robot Type='" << s.type << "' StandardName='" << s.name << "' RootNode='Base'>";
        x << "<RobotNode name='Base'>" << (s.meshes ? "<CollisionModel><Primitives><Box width='60' height='60' depth='60'/></Primitives></CollisionModel>" : "") << phys() << "<Child name='J0'/></RobotNode>";
        auto joint = [&](const std::string& name, const std::vector<std::string>& children, double len, bool pris, bool first)
        {
            x << "<RobotNode name='" << name << "'>";
            if (s.planar) x << tf(first ? 0 : len, 0, 0, 0, 0, 0);
            else x << tf(first ? 0 : len, rnd() * 20 - 10, rnd() * 20, floor(rnd() * 4) * 90, floor(rnd() * 8) * 45, floor(rnd() * 12) * 30);
            if (pris) x << "<Joint type='prismatic'><TranslationDirection x='0' y='0' z='1'/><Limits lo='-200' hi='200' units='mm'/>";
            else
            {
                int a = s.planar ? 2 : (int)(rnd() * 3);
                x << "<Joint type='revolute'><axis x='" << (a == 0) << "' y='" << (a == 1) << "' z='" << (a == 2) << "'/><Limits lo='" << num(s.limitless0 && first ? -M_PI : -s.limit) << "' hi='" << num(s.limitless0 && first ? M_PI : s.limit) << "' units='radian'" << (s.limitless0 && first ? " limitless='true'" : "") << "/>";
            }
            x << "<MaxTorque value='200' unitsLength='m'/>";
            if (name == s.propFrom) x << "<PropagateJointValue name='" << s.propTo << "' factor='" << num(s.propFactor) << "'/>";
            x << "</Joint>" << mesh(len * 0.85) << phys();
            for (auto& c : children) x << "<Child name='" << c << "'/>";
            x << "</RobotNode>";
        };
        for (int i = 0; i < s.n; i++)
        {
            std::vector<std::string> c;
            c.push_back(i + 1 < s.n ? "J" + std::to_string(i + 1) : "TCP");
            if (i == s.branchAt) c.push_back("B0");
            if (i + 1 == s.n && s.eef) { c.push_back("F0"); c.push_back("F1"); }
            joint("J" + std::to_string(i), c, s.link, s.prismaticToo && i == 1 && !s.planar, i == 0);
        }
        x << "<RobotNode name='TCP'>" << tf(s.link, 0, 0, 0, 0, 0) << phys() << "</RobotNode>";
        if (s.branchAt >= 0)
        {
            joint("B0", {"B1"}, s.link * 0.7, false, false);
            joint("B1", {"BT"}, s.link * 0.7, false, false);
            x << "<RobotNode name='BT'>" << tf(s.link * 0.7, 0, 0, 0, 0, 0) << "</RobotNode>";
        }
        if (s.eef)
        {
            for (int f = 0; f < 2; f++)
            {
                x << "<RobotNode name='F" << f << "'>" << tf(s.link * 0.85, f ? 25 : -25, 0, 0, 0, 0)
                  << "<Joint type='revolute'><axis x='0' y='0' z='1'/><Limits lo='" << (f ? "-1.2" : "-0.3") << "' hi='" << (f ? "0.3" : "1.2") << "' units='radian'/></Joint>"
                  << (s.fingerMeshes ? "<Visualization enable='true'><Primitives><Box width='40' height='6' depth='6'><Transform><Translation x='20' y='0' z='0'/></Transform></Box></Primitives></Visualization>"
                     "<CollisionModel><Primitives><Box width='40' height='6' depth='6'><Transform><Translation x='20' y='0' z='0'/></Transform></Box></Primitives></CollisionModel>" : "") << "</RobotNode>";
            }
            x << "<Endeffector name='Hand' base='J" << s.n - 1 << "' tcp='TCP' gcp='TCP'><Static><Node name='J" << s.n - 1 << "'/></Static>"
              << "<Actor name='a0'><Node name='F0' considerCollisions='All' direction='1'/></Actor><Actor name='a1'><Node name='F1' considerCollisions='All' direction='-1'/></Actor></Endeffector>";
        }
        x << "<RobotNodeSet name='Arm' kinematicRoot='Base' tcp='TCP'>";
        for (int i = 0; i < s.n; i++) x << "<Node name='J" << i << "'/>";
        x << "</RobotNodeSet>";
        x << "<RobotNodeSet name='ArmCol' kinematicRoot='Base' tcp='TCP'>";
        for (int i = 1; i < s.n; i++) x << "<Node name='J" << i << "'/>";
        x << "</RobotNodeSet>";
        if (s.branchAt >= 0) x << "<RobotNodeSet name='Branch' kinematicRoot='Base' tcp='BT'><Node name='B0'/><Node name='B1'/></RobotNodeSet>";
        x << "</Robot>";
        return x.str();
    }
    inline RobotPtr makeRobot(const RobotSpec& s)
    {
        registerStub();
        return RobotIO::createRobotFromString(robotXML(s, [] { return sim::runit(); }), "");
    }
    inline Eigen::Matrix4f randomPose(double range)
    {
        Eigen::Matrix4f m = Eigen::Matrix4f::Identity();
        Eigen::Quaternionf q(sim::rreal(-1, 1), sim::rreal(-1, 1), sim::rreal(-1, 1), sim::rreal(0.1, 1)); q.normalize();
        m.block<3, 3>(0, 0) = q.toRotationMatrix();
        m.block<3, 1>(0, 3) = Eigen::Vector3f(sim::rreal(-range, range), sim::rreal(-range, range), sim::rreal(-range, range));
        return m;
    }
    inline bool near(const Eigen::MatrixXf& a, const Eigen::MatrixXf& b, double eps) { return a.rows() == b.rows() && a.cols() == b.cols() && (a - b).cwiseAbs().maxCoeff() <= eps; }
    inline std::string str(const Eigen::MatrixXf& m) { std::stringstream s; s << "["; for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) s << (i + j ? " " : "") << m(i, j); s << "]"; return s.str(); }
}
