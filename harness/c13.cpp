// C13: mesh import delivers the whole mesh or fails.
#include "common.h"
#include <VirtualRobot/Import/MeshImport/STLReader.h>
#include <fcntl.h>
#include <cstring>
#include <fstream>
#include <array>
#include <algorithm>
using namespace VirtualRobot;
typedef std::vector<char> Bytes;
typedef std::array<float, 12> Facet;        // normal, three vertices

static bool less(const Facet& a, const Facet& b)
{
    for (int i = 0; i < 12; i++)
    {
        bool na = std::isnan(a[i]), nb = std::isnan(b[i]);
        if (na != nb) return na;
        if (!na && a[i] != b[i]) return a[i] < b[i];
    }
    return false;
}
static bool degenerate(const Facet& f)
{
    auto eq = [&](int i, int j) { return f[i] == f[j] && f[i + 1] == f[j + 1] && f[i + 2] == f[j + 2]; };
    return eq(3, 6) || eq(3, 9) || eq(6, 9);
}
// (vertices closer than the smallest normal number are one vertex for the reader)
static void flush(Facet& f) { for (int i = 3; i < 12; i++) if (std::fabs(f[i]) < 1e-37f) f[i] = 0; }
static void scale(Facet& f, float s) { for (int i = 3; i < 12; i++) f[i] *= s; flush(f); }
static int openHandles() { int n = 0; for (int i = 0; i < 256; i++) if (fcntl(i, F_GETFD) >= 0) n++; return n; }

struct File
{
    bool binary; Bytes b; std::vector<Facet> facets;            // unscaled, in file order
    std::vector<std::pair<size_t, size_t>> span;                // bytes of each facet
    std::vector<std::pair<size_t, size_t>> solidEnd;            // text: [end of "endsolid", start of the next solid) and the number of facets up to there
    std::vector<size_t> solidFacets;
    std::string style;
};
static void put(Bytes& b, const void* p, size_t n) { b.insert(b.end(), (const char*)p, (const char*)p + n); }
static void put(Bytes& b, const std::string& s) { b.insert(b.end(), s.begin(), s.end()); }
static std::string num(float v, int st)
{
    char s[64];
    if (std::isnan(v)) { return st % 2 ? "nan" : "-nan"; }
    snprintf(s, sizeof s, st == 0 ? "%.9g" : st == 1 ? "%.9e" : st == 2 ? "%.10E" : "%+.9g", v);
    return s;
}
static File makeFile(bool binary, int nf)
{
    File f; f.binary = binary;
    std::vector<Eigen::Vector3f> pool;
    int np = 3 + sim::rnd(nf + 3), vk = sim::rnd(4);
    for (int i = 0; i < np; i++)
    {
        Eigen::Vector3f v;
        for (int k = 0; k < 3; k++) v[k] = vk == 0 ? sim::rint(-3, 3) * 10 : vk == 1 ? (float)sim::rreal(-100, 100) : vk == 2 ? (float)(sim::rreal(-1, 1) * std::pow(10, sim::rint(-5, 6))) : sim::rint(0, 1) * 100;
        pool.push_back(v);
    }
    double pDeg = sim::chance(0.3) ? 0.3 : 0;
    for (int i = 0; i < nf; i++)
    {
        Facet t; Eigen::Vector3f p[3];
        for (auto& q : p) q = sim::pick(pool);
        if (!sim::chance(pDeg))      // make the three vertices different
            for (int tries = 0; tries < 6 && (p[0] == p[1] || p[0] == p[2] || p[1] == p[2]); tries++) for (auto& q : p) q = sim::pick(pool);
        Eigen::Vector3f n = (p[1] - p[0]).cross(p[2] - p[0]); if (n.norm() > 0) n.normalize();
        if (sim::chance(0.05)) n = Eigen::Vector3f::Constant(NAN);
        for (int k = 0; k < 3; k++) { t[k] = n[k]; for (int q = 0; q < 3; q++) t[3 + 3 * q + k] = p[q][k]; }
        f.facets.push_back(t);
    }
    if (binary)
    {
        std::string head = sim::chance(0.3) ? "solid made by some program" : sim::chance(0.5) ? "binary mesh" : "";
        head.resize(80, sim::chance(0.5) ? ' ' : '\0'); put(f.b, head);
        uint32_t n = nf; put(f.b, &n, 4);
        for (auto& t : f.facets) { size_t s = f.b.size(); put(f.b, t.data(), 48); uint16_t a = sim::chance(0.3) ? sim::rnd() : 0; put(f.b, &a, 2); f.span.push_back({s, f.b.size()}); }
        f.style = "binary";
    }
    else
    {
        bool upper = sim::chance(0.15); std::string eol = sim::chance(0.2) ? "\r\n" : "\n"; int st = sim::rnd(4); bool indent = sim::chance(0.5), tabs = sim::chance(0.2), blank = sim::chance(0.15); int solids = sim::chance(0.2) && nf > 1 ? 2 + sim::rnd(2) : 1;
        auto kw = [&](std::string s) { if (upper) for (auto& c : s) c = toupper(c); return s; };
        auto ind = [&](int l) { return indent ? std::string(l * (tabs ? 1 : 2), tabs ? '\t' : ' ') : std::string(); };
        static const char* names[] = {"", " part", " part of a vertex loop, outer facet normal", " endsolid"};
        const char* sep = sim::chance(0.1) ? "  " : " ";
        int done = 0;
        for (int s = 0; s < solids; s++)
        {
            std::string name = names[sim::rnd(4)];
            if (!f.solidEnd.empty()) f.solidEnd.back().second = f.b.size();
            put(f.b, kw("solid") + name + eol);
            int upTo = s == solids - 1 ? nf : done + sim::rnd(nf - done + 1);
            for (; done < upTo; done++)
            {
                auto& t = f.facets[done]; size_t from = f.b.size();
                if (blank && sim::chance(0.3)) put(f.b, eol);
                put(f.b, ind(1) + kw("facet normal") + sep + num(t[0], st) + sep + num(t[1], st) + sep + num(t[2], st) + eol + ind(2) + kw("outer loop") + eol);
                for (int q = 0; q < 3; q++) put(f.b, ind(3) + kw("vertex") + sep + num(t[3 + 3 * q], st) + sep + num(t[4 + 3 * q], st) + sep + num(t[5 + 3 * q], st) + (sim::chance(0.05) ? " " : "") + eol);
                put(f.b, ind(2) + kw("endloop") + eol + ind(1) + kw("endfacet") + eol);
                f.span.push_back({from, f.b.size()});
            }
            put(f.b, kw("endsolid"));
            f.solidEnd.push_back({f.b.size(), 0}); f.solidFacets.push_back(done);
            put(f.b, (sim::chance(0.5) ? name : "") + (s == solids - 1 && sim::chance(0.2) ? "" : eol));
        }
        f.solidEnd.back().second = f.b.size() + 1;
        f.style = std::string("text") + (upper ? " upper case" : "") + (solids > 1 ? " several solids" : "");
    }
    return f;
}
// reference reader of binary data
static bool decode(const Bytes& b, std::vector<Facet>& out, bool exactSize, float sc, bool& finite)
{
    out.clear(); finite = true;
    if (b.size() < 84) return false;
    uint32_t n; memcpy(&n, &b[80], 4);
    if (exactSize ? b.size() != 84 + 50ull * n : b.size() < 84 + 50ull * n) return false;
    for (uint32_t i = 0; i < n; i++) { Facet t; memcpy(t.data(), &b[84 + 50ull * i], 48); for (int k = 3; k < 12; k++) if (!std::isfinite(t[k] * sc) || (t[k] != 0 && std::fabs(t[k] * sc) < 1e-37f)) finite = false; out.push_back(t); }
    return true;
}
struct Model
{
    TriMeshModelPtr t; size_t v0 = 0, f0 = 0, n0 = 0;
    Model() : t(new TriMeshModel()) { if (sim::chance(0.2)) common::addBox(t, 1, 2, 3); v0 = t->vertices.size(); f0 = t->faces.size(); n0 = t->normals.size(); }
    std::vector<Facet> facets(const char* what)
    {
        std::vector<Facet> r;
        for (size_t i = f0; i < t->faces.size(); i++)
        {
            auto& f = t->faces[i]; unsigned int id[3] = {f.id1, f.id2, f.id3}; Facet x;
            for (int q = 0; q < 3; q++) { if (id[q] >= t->vertices.size()) sim::violation("bad-index", "face %zu refers to vertex %u of %zu (%s)", i, id[q], t->vertices.size(), what); for (int k = 0; k < 3; k++) x[3 + 3 * q + k] = t->vertices[id[q]][k]; }
            if (f.idNormal1 == UINT_MAX || f.idNormal1 >= t->normals.size()) for (int k = 0; k < 3; k++) x[k] = 12345;     // without normal
            else for (int k = 0; k < 3; k++) x[k] = t->normals[f.idNormal1][k];
            flush(x); r.push_back(x);
        }
        return r;
    }
};
static std::string str(const Facet& f) { char s[300]; snprintf(s, sizeof s, "normal (%g %g %g) vertices (%g %g %g) (%g %g %g) (%g %g %g)", f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7], f[8], f[9], f[10], f[11]); return s; }
// the facets of `want` (those without the flag `open` exactly) are what was read
static std::string compare(std::vector<Facet> got, const std::vector<Facet>& want, const std::vector<char>& open, float sc)
{
    std::vector<Facet> w; size_t nopen = 0;
    for (size_t i = 0; i < want.size(); i++) { if (!open.empty() && open[i]) { nopen++; continue; } Facet f = want[i]; scale(f, sc); if (!degenerate(f)) w.push_back(f); }
    std::sort(got.begin(), got.end(), less); std::sort(w.begin(), w.end(), less);
    std::vector<Facet> rest; auto lessPtr = less;
    std::set_difference(w.begin(), w.end(), got.begin(), got.end(), std::back_inserter(rest), lessPtr);
    if (!rest.empty()) return "of " + std::to_string(w.size()) + " facets " + std::to_string(rest.size()) + " are missing among the " + std::to_string(got.size()) + " of the model, e.g. " + str(rest[0]);
    if (got.size() > w.size() + nopen) return "the model has " + std::to_string(got.size()) + " facets instead of " + std::to_string(w.size() + nopen);
    return "";
}
static void spit(const std::string& fn, const Bytes& b) { sim::io::Plan keep = sim::io::plan(); sim::io::plan() = sim::io::Plan(); { std::ofstream o(fn, std::ios::binary); o.write(b.data(), b.size()); } sim::io::plan() = keep; }

struct Streamed : std::streambuf     // delivers small pieces and fails at a byte
{
    const Bytes& in; size_t pos = 0, chunk; long failAt; bool failed = false; std::vector<char> buf;
    Streamed(const Bytes& d, size_t c, long f) : in(d), chunk(c), failAt(f), buf(c) {}
    int_type underflow() override
    {
        sim::yield();
        if (failAt >= 0 && (long)pos >= failAt) { failed = true; sim::fault::note("stream-read-fails"); throw std::runtime_error("device"); }
        size_t n = std::min(chunk, in.size() - pos);
        if (failAt >= 0) n = std::min<size_t>(n, failAt - pos);
        if (!n) return traits_type::eof();
        memcpy(buf.data(), &in[pos], n); pos += n;
        setg(buf.data(), buf.data(), buf.data() + n);
        return traits_type::to_int_type(*gptr());
    }
};
static void setup() { sim::opts().maxGapLog2 = 18; }
struct Result { bool ok = false, threw = false, oom = false; };
static Result readFile(const std::string& fn, float sc, TriMeshModelPtr t)
{
    Result r;
    try { STLReaderPtr rd(new STLReader()); rd->setScaling(sc); r.ok = rd->read(fn, t); }
    catch (std::bad_alloc&) { r.threw = r.oom = true; }
    catch (std::exception& e) { r.threw = true; sim::log("reading threw: %s", e.what()); }
    return r;
}
static void many()
{
    // several threads with readers of their own, also of the same file
    int n = 2 + sim::rnd(2); std::vector<File> fs; std::vector<std::string> fn; std::vector<float> sc; std::vector<Model> ms(n); std::vector<Result> rs(n); std::vector<char> same;
    for (int i = 0; i < n; i++)
    {
        if (i && sim::chance(0.3)) { int j = sim::rnd(i); File c = fs[j]; fs.push_back(c); fn.push_back(fn[j]); }
        else { fs.push_back(makeFile(sim::chance(0.5), sim::rnd(12))); fn.push_back(sim::io::scratch() + "m" + std::to_string(i) + ".stl"); spit(fn[i], fs[i].b); }
        sc.push_back(sim::chance(0.5) ? 1 : 1000);
    }
    int h0 = openHandles();
    sim::io::plan().shortReadP = 0.5 * sim::runit(); if (sim::chance(0.3)) sim::io::plan().eintrP = 0.2;
    sim::sample("%d threads reading meshes", n);
    sim::setStepLimit(60000000, "reading meshes in several threads");
    for (int i = 0; i < n; i++) sim::spawn([&, i] { rs[i] = readFile(fn[i], sc[i], ms[i].t); });
    sim::joinAll();
    sim::clearStepLimit(); sim::io::plan() = sim::io::Plan();
    sim::nontrivial(); sim::probe("concurrent");
    for (int i = 0; i < n; i++)
    {
        if (!rs[i].ok) sim::violation("spurious-failure", "an intact %s file of %zu facets is not read (by one of %d threads)", fs[i].style.c_str(), fs[i].facets.size(), n);
        std::string d = compare(ms[i].facets("threads"), fs[i].facets, {}, sc[i]);
        if (d != "") sim::violation("wrong-mesh", "read by one of %d threads: %s", n, d.c_str());
    }
    if (openHandles() != h0) sim::violation("handle-leak", "%d file handles are open, before reading %d", openHandles(), h0);
}
static void run()
{
    if (sim::chance(0.12)) { many(); return; }
    bool binary = sim::chance(0.5); int nf = sim::chance(0.1) ? 0 : sim::chance(0.7) ? 1 + sim::rnd(8) : 1 + sim::rnd(120);
    File f = makeFile(binary, nf);
    float sc = sim::chance(0.4) ? 1 : sim::chance(0.5) ? 1000 : (float)sim::rreal(0.01, 50);
    int via = sim::rnd(4);       // 0,1: .stl; 2: by its own ending; 3: stream
    std::vector<Facet> want = f.facets; std::vector<char> open; bool mustFail = false, mayFail = false; bool checkMesh = true;
    Bytes bad = f.b; auto& pl = sim::io::plan(); std::string what = "intact"; bool oom = false; long streamFail = -1;
    int k = sim::rnd(10);
    if (k <= 1)
    {
        size_t n = f.b.empty() ? 0 : sim::chance(0.6) || f.span.empty() ? sim::rnd(f.b.size()) : [&] { auto s = sim::pick(f.span); return std::min(f.b.size() - 1, s.second - 1 + sim::rnd(3)); }();
        if (sim::chance(0.15)) n = f.b.size() - 1 - sim::rnd(std::min<size_t>(f.b.size(), 12));
        bad.resize(n); mayFail = true; what = "cut after " + std::to_string(n) + " of " + std::to_string(f.b.size()) + " bytes"; sim::fault::note("file-truncated");
        if (binary) mustFail = true;
        else for (size_t i = 0; i < f.solidEnd.size(); i++) if (n >= f.solidEnd[i].first && n <= f.solidEnd[i].second) { want.resize(f.solidFacets[i]); if (i + 1 == f.solidEnd.size() ) mayFail = n < f.b.size() ? mayFail : false; }
    }
    else if (k == 2)
    {
        size_t n = sim::rnd(f.b.size()); std::fill(bad.begin() + n, bad.end(), 0); mayFail = true; what = "zeros from byte " + std::to_string(n) + " of " + std::to_string(f.b.size()); sim::fault::note("file-torn");
        // (after the end of a solid the rest of the line is free text)
        if (!binary) for (size_t i = 0; i < f.solidEnd.size(); i++) if (n >= f.solidEnd[i].first && n <= f.solidEnd[i].second) want.resize(f.solidFacets[i]);
    }
    else if (k == 3 || k == 4)
    {
        int cnt = 1 + (sim::chance(0.4) ? sim::rnd(3) : 0); mayFail = true; open.assign(want.size(), 0); what = "bytes altered:"; sim::fault::note("file-bytes-altered");
        for (int i = 0; i < cnt; i++)
        {
            size_t len = sim::chance(0.7) ? 1 : 1 + sim::rnd(200), p = binary && sim::chance(0.6) ? 80 + sim::rnd(4) : sim::rnd(f.b.size());
            int mode = sim::rnd(4); what += " " + std::to_string(p) + "+" + std::to_string(len);
            for (size_t q = p; q < p + len && q < bad.size(); q++)
            {
                char c = mode == 0 ? bad[q] ^ (1 << sim::rnd(8)) : mode == 1 ? 0 : mode == 2 ? (char)sim::rnd(256) : " \n\t.-+e0159x"[sim::rnd(12)];
                bad[q] = c;
                for (size_t s = 0; s < f.span.size(); s++) if (q >= f.span[s].first && q < f.span[s].second) open[s] = 1;
            }
        }
        if (bad == f.b) mayFail = false;
    }
    else if (k == 5 || k == 6)
    {
        if (via == 3) streamFail = sim::rnd(f.b.size() + 1); else pl.eioReadAt = sim::rnd(2 * f.b.size() + 1);
        mayFail = true; what = "read error at byte " + std::to_string(via == 3 ? streamFail : pl.eioReadAt) + " (" + std::to_string(f.b.size()) + " bytes)";
    }
    else if (k == 7)
    {
        oom = mayFail = true; what = "out of memory";
    }
    else if (k == 8 && binary && via != 3)
    {
        // the number of facets does not fit the file
        uint32_t n = sim::chance(0.3) ? sim::rnd() : sim::chance(0.5) ? nf + sim::rint(1, 5) : 0x80000000u - sim::rint(-3, 3); memcpy(&bad[80], &n, 4); mayFail = true; what = "count " + std::to_string(n); sim::fault::note("file-bytes-altered");
    }
    else if (k == 9 && sim::chance(0.3) && via != 3) { mustFail = mayFail = true; what = "no file"; if (sim::chance(0.5)) { pl.failOpen = true; what = "open fails"; } }
    if (sim::chance(0.5)) { pl.shortReadP = 0.9 * sim::runit(); pl.eintrP = sim::chance(0.4) ? 0.3 * sim::runit() : 0; }
    // what the altered binary file says
    if (binary && (k == 2 || k == 3 || k == 4 || k == 8))
    {
        bool finite; open.clear();
        if (!decode(bad, want, via <= 1, sc, finite)) { mustFail = mayFail = true; }
        else if (!finite) { mayFail = true; checkMesh = false; }     // no mesh: rejected or taken as it is
        else mayFail = false;
    }
    std::string fn = sim::io::scratch() + "mesh" + (via == 0 ? ".stl" : via == 1 ? ".STL" : binary ? ".stlb" : ".stla");
    if (what != "no file") spit(fn, bad);
    Model m; int h0 = openHandles(); Result r; bool streamFailed = false;
    sim::sample("%s, %d facets, %zu bytes, via %d, scaling %g: %s", f.style.c_str(), nf, f.b.size(), via, sc, what.c_str());
    { std::string t(bad.begin(), bad.end()); for (auto& c : t) if (!c) c = '~'; if (!binary) for (size_t p = 0; p < t.size(); p += 300) sim::log("%s", t.substr(p, 300).c_str()); }
    sim::io::resetStats();
    sim::setStepLimit(3000000 + 30000 * (uint64_t)f.b.size(), "reading a mesh");
    size_t allow = (1 << 20) + 400 * f.b.size();
    auto arm = [&] { if (oom) sim::mem::failNew(sim::rnd(20 + 8 * nf), sim::chance(0.5)); else sim::mem::failAny(0, true, allow); };
    if (via != 3) { arm(); r = readFile(fn, sc, m.t); }
    else
    {
        STLReader rd; rd.setScaling(sc); Streamed sb(bad, sim::chance(0.3) ? 1 : 1 + sim::rnd(4000), streamFail); std::istream is(&sb); arm();
        try { r.ok = rd.read(is, binary ? STLReader::STLB : STLReader::STLA, m.t); }
        catch (std::bad_alloc&) { r.threw = r.oom = true; }
        catch (std::exception&) { r.threw = true; }
        streamFailed = sb.failed;
    }
    bool fired = sim::mem::fired(); sim::mem::off(); sim::clearStepLimit();
    bool readFault = sim::io::stats().readFaults > 0 || streamFailed; long opens = sim::io::stats().opens, closes = sim::io::stats().closes;
    pl = sim::io::Plan();
    sim::nontrivial(); sim::probe(r.ok ? "read" : "rejected"); if (r.threw) sim::probe("threw"); if (readFault) sim::probe(r.ok ? "read-despite-error" : "rejected-on-error");
    sim::event("ok", r.ok); sim::event("faces", m.t->faces.size());
    if (!oom && fired) sim::violation("memory", "more than %zu bytes are asked for at once to read a file of %zu bytes (%s)", allow, f.b.size(), what.c_str());
    if (openHandles() != h0) sim::violation("handle-leak", "%d file handles are open, before reading %d (%s, %s)", openHandles(), h0, f.style.c_str(), what.c_str());
    if (opens != closes) sim::violation("handle-leak", "%ld files opened, %ld closed (%s)", opens, closes, what.c_str());
    if (r.ok)
    {
        if (mustFail) sim::violation("damaged-accepted", "a damaged %s file is read as a mesh of %zu facets (%s, %d facets, via %d)", f.style.c_str(), m.t->faces.size() - m.f0, what.c_str(), nf, via);
        if (checkMesh)
        {
            std::string d = compare(m.facets(what.c_str()), want, open, sc);
            if (d != "") sim::violation(what == "intact" ? "wrong-mesh" : "damaged-accepted", "a %s file (%s, %d facets, via %d) is read, but %s", f.style.c_str(), what.c_str(), nf, via, d.c_str());
        }
    }
    else
    {
        if (!mayFail && !readFault) sim::violation("spurious-failure", "a good %s file of %d facets is not read (%s, via %d)", f.style.c_str(), nf, what.c_str(), via);
        // the reader still reads the intact file
        if (sim::chance(0.3)) { Model m2; spit(sim::io::scratch() + "good.stl", f.b); Result q = readFile(sim::io::scratch() + "good.stl", sc, m2.t); if (!q.ok) sim::violation("spurious-failure", "an intact %s file of %d facets is not read after a failed one", f.style.c_str(), nf); std::string d = compare(m2.facets("again"), f.facets, {}, sc); if (d != "") sim::violation("wrong-mesh", "read after a failure: %s", d.c_str()); }
    }
}
sim::Harness sim::harness = {"C13", setup, run};
