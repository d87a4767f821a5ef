#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--time S] [--replay FILE]
Builds the property's simulation from /repo's current tree, runs the seeded search, verifies
any violation by a fresh-process replay and writes evidence/<PROPERTY>.json.
exit 0: held on everything explored; exit 1: VIOLATION line; exit 2: the check itself failed."""
import os, sys, json, time, subprocess, argparse, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import simbuild
from checks import CHECKS

def known(prop):
    """[(class, text)] of the listed, unrepaired findings of a property"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) class=(\S+) (.*)", l)
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3).strip()))
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or "1"))
    ap.add_argument("--time", type=float, default=0); ap.add_argument("--replay", default="")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("SIM_RUN_JOBS") or (os.cpu_count() or 8)))
    a = ap.parse_args()
    c = CHECKS[a.prop]; tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    b = simbuild.Builder()
    exe = b.build(c["name"], c["comps"], c["files"])
    build_s = time.time() - t0
    tmp = os.path.join(simbuild.CACHE, "tmp"); os.makedirs(tmp, exist_ok=True)
    if a.replay:
        return subprocess.call([exe, "--replay", a.replay, "--tmp", tmp], env=dict(os.environ, SIM_LOG="1"))
    rdir = os.path.join(simbuild.CACHE, "replays"); os.makedirs(rdir, exist_ok=True)
    limit = a.time or (c.get("quick_s", 45) if tier == "quick" else c.get("thorough_s", 600))
    kn = known(a.prop)
    res = os.path.join(tmp, "result-%s-%d.json" % (a.prop, os.getpid())); rep = os.path.join(rdir, "%s-seed%d-%s.replay" % (a.prop, a.seed, tier))
    first = a.seed * 10000000 + (5000000 if tier == "thorough" else 1)
    cmd = [exe, "--first", str(first), "--count", "4000000", "--time", str(limit), "--jobs", str(a.jobs), "--out", res, "--replay-out", rep,
           "--tmp", tmp, "--wall", str(c.get("wall", 60)), "--det-every", str(c.get("det_every", 40))]
    for k, _ in kn: cmd += ["--known", k]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    try:
        r = json.load(open(res)); os.remove(res)
    except Exception as e:
        sys.stderr.write(p.stderr[-3000:] + "\nno result: %s (exit %d)\n" % (e, p.returncode)); return 2
    wall = time.time() - t0
    ev = {"property": a.prop, "tier": tier, "seed": a.seed, "level": "exploration", "wall_s": round(wall, 2), "violations": 1 if r["verdict"] == "violation" else 0,
          "assumptions": c.get("assumptions", []) + ["the runtime decides all interleavings at instrumented memory accesses and intercepted calls (sequentially consistent memory)"],
          "coverage": {
              "evaluations": r["runs"], "distinct_nontrivial": r["distinct_nontrivial"], "rule": c["rule"], "samples": r["samples"],
              "simulated_runs": r["runs"], "seeds_per_hour": int(r["runs"] / max(r["wall_s"], 0.001) * 3600), "first_seed": r["first_seed"], "next_seed": r["next_seed"],
              "nontrivial_runs": r["nontrivial"], "distinct_schedules": r["distinct_schedules"], "distinct_end_states": r["distinct_states"],
              "scheduling_points": r["steps"], "context_switches": r["switches"], "simulated_time_s": r["virtual_s"], "multi_threaded_runs": r["multi_thread_runs"],
              "faults_injected": r["faults"], "runs_with_fault": r["runs_with_fault"], "reach_probes": r["probes"],
              "discarded_runs": r["discards"], "wall_limit_runs": r["timeouts"], "determinism_rechecks": r["det_checks"], "determinism_mismatches": r["det_bad"],
              "known_finding_runs": {k: v[0] for k, v in r["known"].items()}, "search_wall_s": r["wall_s"], "build_s": round(build_s, 1),
              "real_components": c["real"], "stub_components": c["stub"]}}
    rc = 0; lines = []
    for k, text in kn:
        lines.append("KNOWN-FINDING: property=%s %s" % (a.prop, text))
    if r["verdict"] == "violation":
        q = subprocess.run([exe, "--replay", rep, "--tmp", tmp], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        ev["coverage"]["violation"] = {k: r[k] for k in ("class", "message", "seed", "mode", "minimise_runs", "decisions_before", "decisions_after", "faults_before", "faults_after")}
        ev["coverage"]["violation"]["replay_exact"] = q.returncode == 1
        if q.returncode == 1:
            lines.append("seed %d class=%s: %s" % (r["seed"], r["class"], r["message"][:1500]))
            lines.append("minimised by %d runs: decisions %d -> %d, faults %d -> %d; replay with: python3 tools/check.py %s --replay %s" % (r["minimise_runs"], r["decisions_before"], r["decisions_after"], r["faults_before"], r["faults_after"], a.prop, rep))
            lines.append("VIOLATION property=%s replay=%s" % (a.prop, rep)); rc = 1
        else:
            lines.append("a violation (class=%s seed=%d) did not replay in a fresh process: %s" % (r["class"], r["seed"], q.stdout[-600:])); rc = 2
    elif r["verdict"] != "ok":
        lines.append("verdict %s: seed %d class=%s %s" % (r["verdict"], r["seed"], r["class"], r["message"][:500])); rc = 2
    elif r["det_bad"]:
        lines.append("%d of %d determinism rechecks differed" % (r["det_bad"], r["det_checks"])); rc = 2
    elif r["timeouts"]:
        lines.append("%d runs without a result" % r["timeouts"]); sys.stderr.write(p.stderr[-2000:]); rc = 2
    elif r["runs"] == 0 or r["nontrivial"] == 0:
        lines.append("no non-trivial run"); rc = 2
    json.dump(ev, open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w"), indent=1)
    print("%s %s: %d runs (%d non-trivial, %d distinct schedules), %.1f simulated s, %.0f s search + %.0f s build, faults %s" % (a.prop, tier, r["runs"], r["nontrivial"], r["distinct_schedules"], r["virtual_s"], r["wall_s"], build_s, json.dumps(r["faults"])))
    print("\n".join(lines), flush=True)
    return rc
try:
    sys.exit(main())
except SystemExit: raise
except BaseException as e:
    import traceback; traceback.print_exc(); sys.exit(2)
