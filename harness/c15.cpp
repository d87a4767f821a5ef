// C15: convex hulls are right and reusable, whoever else computes one.
#include "common.h"
#include <GraspPlanning/ConvexHullGenerator.h>
#include <sys/mman.h>
#include <sys/wait.h>
using namespace VirtualRobot; using namespace GraspStudio; using namespace VirtualRobot::MathTools; typedef std::string S;

static void setup() { common::registerStub(); sim::opts().maxGapLog2 = 15; }
struct Input { bool six, viaMesh, fullDim; S kind; std::vector<Eigen::Vector3f> p; std::vector<ContactPoint> w; double width; std::vector<float> want; };
static std::vector<Input> g_in; static int g_threads;

static std::vector<float> flat(ConvexHull3DPtr h) { std::vector<float> r; if (!h || h->faces.empty()) return r; r.push_back(h->volume); r.push_back(h->maxDistFacetCenter); for (int i = 0; i < 3; i++) r.push_back(h->center[i]); r.push_back(h->vertices.size()); r.push_back(h->faces.size()); for (auto& v : h->vertices) for (int i = 0; i < 3; i++) r.push_back(v[i]); for (auto& f : h->faces) { r.push_back(f.id1); r.push_back(f.id2); r.push_back(f.id3); for (int i = 0; i < 3; i++) r.push_back(f.normal[i]); } return r; }
static std::vector<float> flat(ConvexHull6DPtr h) { std::vector<float> r; if (!h || h->faces.empty()) return r; auto cp = [&](const ContactPoint& c) { for (int i = 0; i < 3; i++) r.push_back(c.p[i]); for (int i = 0; i < 3; i++) r.push_back(c.n[i]); }; r.push_back(h->volume); cp(h->center); r.push_back(h->vertices.size()); r.push_back(h->faces.size()); for (auto& v : h->vertices) cp(v); for (auto& f : h->faces) { for (int i = 0; i < 6; i++) r.push_back(f.id[i]); cp(f.normal); for (float x : {(float)f.offset, (float)f.distNormCenter, (float)f.distPlaneCenter, (float)f.distNormZero, (float)f.distPlaneZero}) r.push_back(x); } return r; }
static TriMeshModelPtr meshOf(const Input& in) { TriMeshModelPtr m(new TriMeshModel()); m->vertices = in.p; return m; }
// a lone fresh process: nothing was computed before
static std::vector<float> fresh(const Input& in)
{
    const size_t cap = 4 << 20; float* mem = (float*)mmap(nullptr, cap * 4, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (mem == MAP_FAILED) sim::discard("no-memory");
    pid_t p = fork();
    if (p == 0)
    {
        Input c = in; std::vector<float> r = c.six ? flat(ConvexHullGenerator::CreateConvexHull(c.w)) : flat(ConvexHullGenerator::CreateConvexHull(c.p)); if (r.size() + 1 > cap) _exit(3);
        *(int*)mem = (int)r.size(); if (!r.empty()) memcpy(mem + 1, r.data(), r.size() * 4); _exit(0);
    }
    int st = 0; if (p < 0 || waitpid(p, &st, 0) != p) sim::discard("no-process");
    std::vector<float> r; bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0; if (ok) r.assign(mem + 1, mem + 1 + *(int*)mem); munmap(mem, cap * 4);
    if (!ok) sim::violation("lone-crash", "a lone computation of the hull of %zu points (%s) ends the process (%d)", in.six ? in.w.size() : in.p.size(), in.kind.c_str(), st);
    return r;
}
static void geometry(const Input& in)
{
    const std::vector<float>& w = in.want;
    if (w.empty()) { if (in.fullDim) sim::violation("no-hull", "no hull of %zu points (%s)", in.six ? in.w.size() : in.p.size(), in.kind.c_str()); sim::probe("no-hull"); return; }
    const int d = in.six ? 6 : 3; size_t o = in.six ? 7 : 5, nv = (size_t)w[o], nf = (size_t)w[o + 1]; const float* v = w.data() + o + 2; const float* f = v + nv * d; const size_t fs = in.six ? 17 : 6; const float* center = w.data() + (in.six ? 1 : 2);
    double tol = in.width * (in.six ? 0.02 : 2e-5) + 1e-30, vol = 0, maxDist = 0; std::vector<std::vector<double>> pts; if (in.six) for (auto& x : in.w) pts.push_back({x.p[0], x.p[1], x.p[2], x.n[0], x.n[1], x.n[2]}); else for (auto& x : in.p) pts.push_back({x[0], x[1], x[2]});
    if (!in.fullDim) { sim::probe("hull-of-degenerate-points"); }
    if (nv != nf * d) sim::violation("bad-hull", "%zu vertices for %zu faces", nv, nf);
    for (size_t i = 0; i < nv; i++) { double best = 1e300; for (auto& p : pts) { double s = 0; for (int k = 0; k < d; k++) s += (v[i * d + k] - p[k]) * (v[i * d + k] - p[k]); best = std::min(best, s); } if (std::sqrt(best) > tol) sim::violation("foreign-vertex", "a vertex of the hull of %zu points (%s) is none of the points (off by %g)", pts.size(), in.kind.c_str(), std::sqrt(best)); }
    std::map<std::vector<float>, int> edges;
    for (size_t i = 0; i < nf; i++)
    {
        const float* fc = f + i * fs; const float* n = fc + d; double len = 0; for (int k = 0; k < d; k++) len += n[k] * n[k]; if (std::fabs(len - 1) > 1e-3) sim::violation("bad-hull", "a face normal of length %g (%s)", std::sqrt(len), in.kind.c_str());
        auto at = [&](int k) { return v + (size_t)fc[k] * d; }; for (int k = 0; k < d; k++) if (fc[k] < 0 || fc[k] >= nv) sim::violation("bad-hull", "a face refers to a missing vertex");
        double off = -1e300; for (int k = 0; k < d; k++) { double s = 0; for (int j = 0; j < d; j++) s += n[j] * at(k)[j]; off = std::max(off, s); }
        if (in.fullDim || !in.six) for (auto& p : pts) { double s = -off; for (int j = 0; j < d; j++) s += n[j] * p[j]; if (s > tol * 4) sim::violation("outside", "a point lies %g outside the hull of %zu points (%s, width %g)", s, pts.size(), in.kind.c_str(), in.width); }
        double dc = -off; for (int j = 0; j < d; j++) dc += n[j] * center[j]; maxDist = std::max(maxDist, std::fabs(dc)); if (dc > tol) sim::violation("bad-hull", "the center is %g outside of the hull (%s)", dc, in.kind.c_str());
        if (!in.six)
        {
            Eigen::Vector3d a(at(0)[0], at(0)[1], at(0)[2]), b(at(1)[0], at(1)[1], at(1)[2]), c(at(2)[0], at(2)[1], at(2)[2]), m(center[0], center[1], center[2]); vol += std::fabs((a - m).dot((b - m).cross(c - m))) / 6;
            for (int k = 0; k < 3; k++) { std::vector<float> e1(at(k), at(k) + 3), e2(at((k + 1) % 3), at((k + 1) % 3) + 3); if (e2 < e1) std::swap(e1, e2); e1.insert(e1.end(), e2.begin(), e2.end()); edges[e1]++; }
        }
    }
    if (!in.six)
    {
        for (auto& e : edges) if (e.second % 2) sim::violation("open-hull", "the hull of %zu points (%s) has a hole", pts.size(), in.kind.c_str());
        double scale = in.width * in.width * in.width; if (std::fabs(vol - w[0]) > 1e-3 * vol + 1e-5 * scale) sim::violation("wrong-volume", "volume %g reported, %g enclosed (%s)", w[0], vol, in.kind.c_str());
        if (std::fabs(maxDist - w[1]) > tol * 10 + 1e-4 * maxDist) sim::violation("wrong-distance", "face distance %g reported, %g found (%s)", w[1], maxDist, in.kind.c_str());
    }
}
static Input makeInput()
{
    Input in; in.six = sim::chance(0.35); in.fullDim = true; in.viaMesh = sim::chance(0.3); double scale = std::pow(10.0, sim::rreal(-2, 4)); in.width = 0; const int d = in.six ? 6 : 3;
    int kind = sim::rnd(10), n = in.six ? sim::rint(9, 20) : sim::rint(5, 80); if (in.six && (kind == 3 || kind == 4 || kind == 6) && sim::chance(0.8)) kind = 0; std::vector<std::vector<double>> pts; auto rp = [&] { std::vector<double> x(d); for (auto& y : x) y = sim::rreal(-1, 1); return x; };
    switch (kind)
    {
        case 0: case 1: in.kind = "random points"; for (int i = 0; i < n; i++) pts.push_back(rp()); break;
        case 2: in.kind = "points on a sphere"; for (int i = 0; i < n; i++) { auto x = rp(); double l = 1e-9; for (double y : x) l += y * y; l = std::sqrt(l); for (auto& y : x) y /= l; pts.push_back(x); } break;
        case 3: in.kind = "a box"; for (int i = 0; i < (1 << d); i++) { std::vector<double> x(d); for (int k = 0; k < d; k++) x[k] = (i >> k) & 1 ? 1 : -1; pts.push_back(x); } break;
        case 4: in.kind = "a box with inner points"; for (int i = 0; i < (1 << d); i++) { std::vector<double> x(d); for (int k = 0; k < d; k++) x[k] = (i >> k) & 1 ? 1 : -1; pts.push_back(x); } for (int i = 0; i < n / 2; i++) pts.push_back(rp()); break;
        case 5: in.kind = "repeated points"; for (int i = 0; i < n; i++) pts.push_back(i > d + 3 && sim::chance(0.6) ? sim::pick(pts) : rp()); break;
        case 6: in.kind = "a grid"; if (in.six) { for (int i = 0; i < 64; i++) { std::vector<double> x(6); for (int k = 0; k < 6; k++) x[k] = (i >> k) & 1; pts.push_back(x); } } else { int a = sim::rint(1, 4), b = sim::rint(1, 4), c = sim::rint(1, 4); for (int i = 0; i <= a; i++) for (int j = 0; j <= b; j++) for (int k = 0; k <= c; k++) pts.push_back({(double)i, (double)j, (double)k}); } break;
        case 7: in.kind = "too few points"; in.fullDim = false; n = sim::rnd(d + 1); for (int i = 0; i < n; i++) pts.push_back(rp()); break;
        case 8: { in.kind = "flat points"; in.fullDim = false; int r = sim::rnd(d); std::vector<std::vector<double>> base; for (int i = 0; i <= r; i++) base.push_back(rp()); for (int i = 0; i < n; i++) { std::vector<double> x = base[0]; for (int k = 1; k <= r; k++) { double a = sim::rint(-3, 3); for (int j = 0; j < d; j++) x[j] += a * base[k][j]; } pts.push_back(x); } break; }
        default: { in.kind = "contact wrenches"; if (!in.six) { for (int i = 0; i < n; i++) pts.push_back(rp()); break; }
            // wrenches of friction cones at random contacts around the origin
            int m = sim::rint(2, 3) + sim::chance(0.1); if (m == 2) in.fullDim = false; for (int i = 0; i < m; i++) { Eigen::Vector3d p(sim::rreal(-1, 1), sim::rreal(-1, 1), sim::rreal(-1, 1)), nn = -p.normalized(); Eigen::Vector3d u = nn.unitOrthogonal(), v = nn.cross(u); for (int k = 0; k < 8; k++) { Eigen::Vector3d f = nn + 0.5 * (std::cos(k * M_PI / 4) * u + std::sin(k * M_PI / 4) * v); f.normalize(); Eigen::Vector3d t = p.cross(f); pts.push_back({f[0], f[1], f[2], t[0], t[1], t[2]}); } } scale = 1; break; }
    }
    if (!in.fullDim && kind != 7) sim::probe("degenerate");
    std::vector<double> shift(d, 0); if (sim::chance(0.3) && kind != 9) for (auto& x : shift) x = sim::rreal(-2, 2) ;
    std::vector<double> lo(d, 1e300), hi(d, -1e300);
    for (auto& x : pts) { for (int k = 0; k < d; k++) { x[k] = (float)((x[k] + shift[k]) * scale); lo[k] = std::min(lo[k], x[k]); hi[k] = std::max(hi[k], x[k]); } }
    for (int k = 0; k < d && !pts.empty(); k++) in.width = std::max({in.width, hi[k] - lo[k], std::fabs(hi[k]), std::fabs(lo[k])});
    for (auto& x : pts) if (in.six) { ContactPoint c; c.p << x[0], x[1], x[2]; c.n << x[3], x[4], x[5]; c.force = 1; in.w.push_back(c); } else in.p.push_back(Eigen::Vector3f(x[0], x[1], x[2]));
    return in;
}
struct Op { int input; long oom; bool c; };
static void doOp(const Op& o, int thread)
{
    Input in; { sim::NoPreempt np; in = g_in[o.input]; } bool fired = false; std::vector<float> r; bool threw = false;
    try
    {
        if (o.oom > 0) sim::mem::failNew(o.oom - 1, o.c, 0);
        if (in.six) { auto h = ConvexHullGenerator::CreateConvexHull(in.w); fired = sim::mem::fired(); sim::mem::off(); r = flat(h); }
        else if (in.viaMesh) { TriMeshModelPtr m = meshOf(in); auto h = ConvexHullGenerator::CreateConvexHull(m); fired = sim::mem::fired(); sim::mem::off(); r = flat(h); }
        else { auto h = ConvexHullGenerator::CreateConvexHull(in.p); fired = sim::mem::fired(); sim::mem::off(); r = flat(h); }
    }
    catch (const std::exception& e) { fired = sim::mem::fired(); sim::mem::off(); threw = true; if (o.oom <= 0 || !fired) sim::violation("spurious-failure", "the hull of %s throws %s (%d threads)", in.kind.c_str(), e.what(), g_threads); }
    sim::NoPreempt np; if (o.oom <= 0) fired = false;
    if (fired) { sim::probe("failed-for-memory"); if (threw || r.empty()) return; }
    if (r != in.want) sim::violation("other-hull", "the hull of %s (%zu points) by thread %d has %zu values, a lone computation gives %zu%s (%d threads)", in.kind.c_str(), in.six ? in.w.size() : in.p.size(), thread, r.size(), in.want.size(), fired ? ", after a failed allocation" : "", g_threads);
    sim::probe(in.six ? "hull6" : "hull3");
}
static void run()
{
    sim::opts().allowPreempt = false; int k = sim::rint(1, 4); S desc;
    { sim::NoPreempt np; for (int i = 0; i < k; i++) { Input in = makeInput(); in.want = fresh(in); geometry(in); desc += in.kind + (in.six ? " (6d, " : " (3d, ") + std::to_string(in.six ? in.w.size() : in.p.size()) + "), "; g_in.push_back(in); } }
    g_threads = sim::rint(1, 4); bool oom = sim::chance(0.35), inC = sim::chance(0.4); std::vector<std::vector<Op>> ops(g_threads);
    for (auto& t : ops) { int n = sim::rint(1, 4); for (int i = 0; i < n; i++) { Op o; o.input = sim::rnd(k); o.c = inC; o.oom = oom && sim::chance(0.4) ? 1 + (long)std::exp(sim::rreal(0, inC ? 6 : 4)) : 0; t.push_back(o); if (o.oom) desc += "!"; } }
    sim::sample("%d threads: %s", g_threads, desc.c_str()); sim::nontrivial(); sim::opts().allowPreempt = true; sim::setStepLimit(2000000000, "computing hulls");
    for (int t = 0; t < g_threads; t++) sim::spawn([t, &ops] { for (auto& o : ops[t]) doOp(o, t); });
    sim::joinAll();
    // whatever happened: everybody can compute the same hulls again
    sim::spawn([&] { for (int i = 0; i < k; i++) { Op o; o.input = i; o.oom = 0; doOp(o, -1); } }); sim::joinAll(); sim::clearStepLimit();
}
sim::Harness sim::harness = {"C15", setup, run};
