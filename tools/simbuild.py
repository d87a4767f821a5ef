#!/usr/bin/env python3
"""Build driver: compiles /repo's current sources (instrumented) + a harness into one
simulation executable.  Objects are cached by content hash (preprocessor input closure),
so a warm cache is only ever used for byte-identical inputs."""
import os, re, sys, hashlib, subprocess, concurrent.futures as cf, glob, json, time, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
CACHE = os.environ.get("SIM_CACHE", os.path.join(VERIF, "build"))
CXX = os.environ.get("SIM_CXX", "clang++")

DEFS = ["-DgetMotorTargetVelosity=getMotorTargetVelocity",
        "-DgNumDeepPenetrationChecks=gNumClampedCcdMotions", "-DgNumGjkChecks=gNumClampedCcdMotions",
        "-DNDEBUG", "-DUSE_NLOPT", "-DBOOST_NO_CXX11_SCOPED_ENUMS", "-DBOOST_ALL_NO_LIB",
        "-DBOOST_ALL_DYN_LINK", '-DSimox_DATA_PATH="data"',
        '-DVirtualRobot_SRC_DATA_PATH="%s/VirtualRobot/data"' % "/repo"]
BASE = ["-w", "-std=c++11", "-O1", "-fno-strict-aliasing", "-ffp-contract=off"]
INSTR = ["-fsanitize=thread"]
def incs():
    return ["-I" + REPO, "-I" + REPO + "/VirtualRobot/CollisionDetection/PQP",
            "-I" + REPO + "/VirtualRobot/CollisionDetection/PQP/PQP++",
            "-I" + REPO + "/GraspPlanning/ExternalDependencies/qhull-2003.1/include",
            "-isystem", "/usr/include/bullet", "-isystem", "/usr/include/bullet/bullet", "-isystem", "/usr/include/eigen3"]

def parse_sources(cml, var):
    t = open(os.path.join(REPO, cml), errors="replace").read()
    m = re.search(r"SET\s*\(\s*%s\s+(.*?)\)" % var, t, re.S | re.I)
    out = []
    for line in m.group(1).splitlines():
        line = line.split("#")[0]
        out += [w for w in line.split() if re.search(r"\.(cpp|cxx|cc|c)$", w)]
    d = os.path.dirname(cml)
    return [os.path.normpath(os.path.join(d, s)) for s in out]

def component_sources(comp):
    """list of repo-relative sources of a component (never Coin/Qt ones)."""
    if comp == "vr":
        s = parse_sources("VirtualRobot/CMakeLists.txt", "SOURCES")
        s += ["VirtualRobot/CollisionDetection/PQP/CollisionCheckerPQP.cpp",
              "VirtualRobot/CollisionDetection/PQP/CollisionModelPQP.cpp"]
        opt = "VirtualRobot/IK/ConstrainedOptimizationIK.cpp"       # added by CMake if nlopt is there
        if opt not in s and os.path.exists(os.path.join(REPO, opt)):
            s.append(opt)
    elif comp == "pqp":
        s = [os.path.relpath(p, REPO) for p in sorted(glob.glob(REPO + "/VirtualRobot/CollisionDetection/PQP/PQP++/*.cpp"))]
    elif comp == "saba":
        s = [os.path.relpath(p, REPO) for p in sorted(glob.glob(REPO + "/MotionPlanning/*.cpp") +
             glob.glob(REPO + "/MotionPlanning/CSpace/*.cpp") + glob.glob(REPO + "/MotionPlanning/Planner/*.cpp") +
             glob.glob(REPO + "/MotionPlanning/PostProcessing/*.cpp"))]
    elif comp == "grasp":
        s = [os.path.relpath(p, REPO) for p in sorted(glob.glob(REPO + "/GraspPlanning/*.cpp") +
             glob.glob(REPO + "/GraspPlanning/GraspPlanner/*.cpp") + glob.glob(REPO + "/GraspPlanning/GraspQuality/*.cpp"))]
    elif comp == "qhull":
        q = "GraspPlanning/ExternalDependencies/qhull-2003.1/src/"
        s = [q + f for f in ("user.c global.c stat.c io.c geom2.c poly2.c merge.c geom.c poly.c qset.c mem.c qhull.c").split()]
    elif comp == "simdyn":
        s = [os.path.relpath(p, REPO) for p in sorted(glob.glob(REPO + "/SimDynamics/*.cpp") +
             glob.glob(REPO + "/SimDynamics/DynamicsEngine/*.cpp"))]
        b = "SimDynamics/DynamicsEngine/BulletEngine/"
        s += [b + f for f in ("BulletEngine.cpp BulletEngineFactory.cpp BulletObject.cpp BulletRobot.cpp "
                              "BulletRobotLogger.cpp SimoxCollisionDispatcher.cpp SimoxMotionState.cpp").split()]
    else:
        raise SystemExit("unknown component " + comp)
    return s
LIBS = ["-lboost_thread", "-lboost_filesystem", "-lboost_system", "-lboost_program_options", "-lnlopt", "-lpthread", "-ldl"]
COMPLIBS = {"simdyn": ["-lBulletDynamics", "-lBulletCollision", "-lLinearMath"]}

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:32]

_fh = {}
def fhash(p):
    if p not in _fh:
        try: _fh[p] = sha(open(p, "rb").read())
        except OSError: _fh[p] = "missing"
    return _fh[p]

def tree_hash():
    """hash of all repo sources/headers a compile could read."""
    h = []; t = []
    for top in ("VirtualRobot", "MotionPlanning", "GraspPlanning", "SimDynamics"):
        for r, d, f in os.walk(os.path.join(REPO, top)):
            for n in f:
                if re.search(r"\.(h|hpp|hxx|inl)$", n):
                    p = os.path.join(r, n)
                    h.append(p + fhash(p)); t.append(p + str(os.stat(p).st_mtime_ns))
    return sha(*sorted(h)), sha(*sorted(t))


SLOW = ["MathTools.cpp", "JacobiProvider.cpp", "PoseQualityExtendedManipulability.cpp", "PoseQualityManipulability.cpp", "Helpers.cpp",
        "WorkspaceRepresentation.cpp", "LocalTCS.cpp", "TimeOptimalTrajectory.cpp", "Manipulability.cpp", "RobotNode.cpp"]
class LinkError(RuntimeError):
    pass

class Builder:
    def __init__(self, jobs=None):
        os.makedirs(os.path.join(CACHE, "obj"), exist_ok=True)
        self.jobs = jobs or int(os.environ.get("SIM_JOBS", "8"))
        self.base = list(BASE)
        self.th, self.times = tree_hash()
        self.simh = sha(*[fhash(p) for p in sorted(glob.glob(VERIF + "/sim/*.h") + glob.glob(VERIF + "/harness/*.h"))])
        self.ver = subprocess.run([CXX, "--version"], capture_output=True, text=True).stdout
        self._pch = {}; self.pchkey = {}
        self.fallbacks = []
        # `throw std::exception("text")` in a template is accepted by gcc (the project's compiler) but
        # not by clang: those headers are compiled from a copy in which the type is std::runtime_error
        roots = []
        for top in ("VirtualRobot", "MotionPlanning", "GraspPlanning", "SimDynamics"):
            for r, d, f in os.walk(os.path.join(REPO, top)):
                for n in f:
                    if n.endswith((".h", ".hpp")):
                        t = open(os.path.join(r, n), errors="replace").read()
                        if re.search(r'\bstd::exception\s*\(\s*"', t):
                            c = os.path.join(CACHE, "obj", "ov_" + sha(os.path.join(r, n), t) + ".h")
                            open(c, "w").write(re.sub(r'\bstd::exception\s*\(\s*"', 'std::runtime_error("', t))
                            roots.append('{"type":"directory","name":"%s","contents":[{"type":"file","name":"%s","external-contents":"%s"}]}' % (r, n, c))
        self.overlay = os.path.join(CACHE, "obj", "overlay_%s.yaml" % sha(*roots))
        open(self.overlay, "w").write('{"version":0,"use-external-names":false,"roots":[%s]}' % ",".join(roots))
    def flags(self, instr):
        return self.base + ["-ivfsoverlay", self.overlay] + DEFS + incs() + (INSTR if instr else [])
    def run(self, cmd, exc=RuntimeError):
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode:
            raise exc("failed: " + " ".join(cmd[-3:]) + "\n" + p.stderr[-4000:])
    def pch(self, instr):
        flags = self.flags(instr)
        key = sha(self.ver, self.th, " ".join(flags), open(VERIF + "/sim/pch.h").read())
        self.pchkey[instr] = key
        # (a precompiled header is only usable while its headers also have the same times)
        out = os.path.join(CACHE, "obj", "pch_" + sha(key, self.times) + ".pch")
        if not os.path.exists(out):
            tmp = out + ".%d" % os.getpid()
            self.run([CXX] + flags + ["-x", "c++-header", VERIF + "/sim/pch.h", "-o", tmp])
            os.rename(tmp, out)
        return out
    def compile(self, src, instr=True, extra=()):
        path = src if os.path.isabs(src) else os.path.join(REPO, src)
        base = os.path.basename(path); pk = ""
        if path.endswith(".c"):
            cmd = ["clang", "-w", "-O1", "-Dmalloc=sim_malloc", "-Dcalloc=sim_calloc", "-Drealloc=sim_realloc", "-include", "stdlib.h",
                   "-include", VERIF + "/sim/cmalloc.h"] + incs() + (INSTR if instr else [])
            alt = None
        elif base == "simrt.cpp":
            cmd = [CXX, "-std=c++14", "-O2", "-w"]; alt = None
        else:
            flags = self.flags(instr)
            if base == "MathTools.cpp":
                flags = [f for f in flags if f != "-O1"] + ["-O1"]
            cmd = [CXX] + flags + list(extra) + ["-include-pch", self._pch[instr]]
            pk = self.pchkey[instr]
            # code gcc accepts and clang does not: same instrumentation interface
            alt = ["g++"] + [f for f in flags if f not in ("-ivfsoverlay", self.overlay)] + list(extra)
        key = sha(self.ver, path, fhash(path), self.th, " ".join(c for c in cmd if c not in self._pch.values()), pk, self.simh if path.startswith(VERIF) else "")
        out = os.path.join(CACHE, "obj", base + "_" + key + ".o")
        if not os.path.exists(out):
            tmp = out + ".%d.o" % os.getpid()
            try:
                self.run(cmd + ["-c", path, "-o", tmp])
            except RuntimeError:
                if not alt or path.startswith(VERIF): raise
                self.fallbacks.append(src)
                self.run(alt + ["-c", path, "-o", tmp])
            os.rename(tmp, out)
        return out
    def build(self, name, comps, harness, extra=(), full=False):
        """comps: list of components; returns the executable's path"""
        t0 = time.time()
        allsrc = []
        for c in comps:
            allsrc += component_sources(c)
        lean = os.path.join(VERIF, "harness", name + ".lean")
        srcs = allsrc
        if os.path.exists(lean) and not full:
            want = set(open(lean).read().split())
            srcs = [s for s in allsrc if s in want]
        vs = [os.path.join(VERIF, "sim", "simrt.cpp")] + [os.path.join(VERIF, "harness", h) for h in harness]
        with cf.ThreadPoolExecutor(3) as ex:
            r = ex.submit(self.compile, vs[0], False)
            a = ex.submit(self.pch, True); b = ex.submit(self.pch, False)
            self._pch[True] = a.result(); self._pch[False] = b.result(); r.result()
        t1 = time.time()
        def prio(s):
            b = os.path.basename(s)
            if b in SLOW: return (0, SLOW.index(b))
            p = s if os.path.isabs(s) else os.path.join(REPO, s)
            return (1, -os.path.getsize(p) if os.path.exists(p) else 0)
        with cf.ThreadPoolExecutor(self.jobs) as ex:
            futs = {s: ex.submit(self.compile, s, not s.startswith(VERIF), extra) for s in sorted(srcs + vs, key=prio)}
            objs = [futs[s].result() for s in srcs + vs]
        t2 = time.time()
        key = sha(*objs)
        exe = os.path.join(CACHE, name + "_" + key[:16])
        if not os.path.exists(exe):
            libs = sum([COMPLIBS.get(c, []) for c in comps], []) + LIBS
            tmp = exe + ".%d" % os.getpid()
            rsp = tmp + ".rsp"
            open(rsp, "w").write("\n".join(objs))
            try:
                self.run([CXX, "-fuse-ld=" + LD, "-rdynamic", "-o", tmp, "@" + rsp] + libs, LinkError)
            except LinkError:
                if srcs is allsrc: raise
                print("simbuild: reduced source list of %s does not link, using all sources" % name, file=sys.stderr)
                return self.build(name, comps, harness, extra, full=True)
            finally:
                if os.path.exists(rsp): os.remove(rsp)
            os.rename(tmp, exe)
        self.timing = dict(pch=round(t1 - t0, 1), compile=round(t2 - t1, 1), link=round(time.time() - t2, 1), sources=len(srcs))
        return exe
    def make_lean(self, name, comps, harness):
        """computes the sources a harness needs (linker + sources with static registration)"""
        self.build(name, comps, harness, full=True)
        srcs = sum([component_sources(c) for c in comps], [])
        objs = {self.compile(s): s for s in srcs}
        vs = [self.compile(os.path.join(VERIF, "sim", "simrt.cpp"), False)] + [self.compile(os.path.join(VERIF, "harness", h), False) for h in harness]
        keep = [s for s in srcs if re.search(r"SubClassRegistry\s+\S+::registry", open(os.path.join(REPO, s), errors="replace").read())]
        inv = {v: k for k, v in objs.items()}
        ar = os.path.join(CACHE, name + ".a")
        if os.path.exists(ar): os.remove(ar)
        subprocess.check_call(["ar", "rcs", ar] + [o for o, s in objs.items() if s not in keep])
        libs = sum([COMPLIBS.get(c, []) for c in comps], []) + LIBS
        p = subprocess.run([CXX, "-fuse-ld=bfd", "-rdynamic", "-Wl,-Map=" + ar + ".map", "-o", ar + ".exe"] + [inv[k] for k in keep] + vs + [ar] + libs, capture_output=True, text=True)
        if p.returncode: raise RuntimeError(p.stderr[-3000:])
        byname = {os.path.basename(o): s for o, s in objs.items()}
        used = set(keep)
        for w in re.findall(r"\.a\(([^)\n]+)\)", open(ar + ".map", errors="replace").read()):
            if w in byname: used.add(byname[w])
        for x in ("", ".exe", ".map"): os.remove(ar + x)
        open(os.path.join(VERIF, "harness", name + ".lean"), "w").write("\n".join(s for s in srcs if s in used) + "\n")
        return len(used), len(srcs)
LD = "lld" if shutil.which("ld.lld") else "bfd"
if __name__ == "__main__":
    b = Builder()
    t = time.time()
    if sys.argv[1] == "--lean":
        print(b.make_lean(sys.argv[2], sys.argv[3].split(","), sys.argv[4].split(",")))
    else:
        print(b.build(sys.argv[1], sys.argv[2].split(","), sys.argv[3].split(",")), b.timing, round(time.time() - t, 1), b.fallbacks)
