#!/usr/bin/env python3
"""check.py <property>  -- builds from /repo's working tree, explores, reports.

exit 0: held on everything explored; 1: VIOLATION line; 2: no answer (build failure, irreproducible run).
Environment: VERIF_SEED (default 1), VERIF_TIER (quick|thorough).
"""
import json, os, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS, COMMON
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(VERIF, "work")
KNOWN = os.path.join(VERIF, "known-findings.txt")

def main():
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    c = CHECKS[prop]
    t0 = time.time()
    os.makedirs(WORK, exist_ok=True); os.makedirs(VERIF + "/evidence", exist_ok=True)
    b = subprocess.run([sys.executable, VERIF + "/tools/build.py", c["bin"]], stdout=subprocess.PIPE, text=True)
    if b.returncode:
        print("build failed"); sys.exit(2)
    binary = b.stdout.strip().splitlines()[-1]
    build_s = time.time() - t0
    known = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith("KNOWN property=%s " % prop): known.append(l.strip())
    jobs = str(min(8, os.cpu_count() or 8))
    total = float(os.environ.get("SIM_TIME", c.get("time", 24) if tier == "quick" else c.get("thorough_time", 600)))
    hs = c["harnesses"]; wsum = sum(h[1] for h in hs)
    res = []; violation = None; errors = {}
    gate = {"plans": 0, "mismatches": 0}
    for (h, w) in hs:
        out = WORK + "/%s-%s.json" % (prop, h)
        # determinism gate: a sample of plans, each executed twice in separate processes
        n = 60 if tier == "quick" else 600
        g = subprocess.run([binary, "gate", h, "--seed", str(seed + 77), "--jobs", jobs, "--max-runs", str(2 * n), "--time", "60", "--tier", "0" if tier == "quick" else "1", "--out", out], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        try: gj = json.load(open(out)); gate["plans"] += gj["runs"] // 2; gate["mismatches"] += gj["mismatches"]
        except Exception: errors["gate " + h] = (g.stderr or "")[-500:]
        classes = ",".join(list(COMMON) + list(c["classes"])) if c.get("classes") else ""
        cmd = [binary, "run", h, "--seed", str(seed), "--time", str(total * w / wsum), "--jobs", jobs, "--tier", "0" if tier == "quick" else "1", "--out", out, "--prop", prop, "--replay-dir", WORK, "--known", KNOWN]
        if classes: cmd += ["--classes", classes]
        if c.get("cpu"): cmd += ["--cpu", str(c["cpu"])]
        for attempt in range(3):
          r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
          try: j = json.load(open(out))
          except Exception:
            errors["run " + h] = "no result, exit %d %s" % (r.returncode, r.stderr[-500:]); break
          res.append(j)
          for k, v in j["errors"].items(): errors[h + ": " + k] = v
          if not j["violation"]: break
          # the replay file has to reproduce the violation in a fresh process
          rr = subprocess.run([binary, "replay", j["violation"]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
          if rr.returncode == 1 and ("class=%s " % j["violation_class"]) in rr.stdout:
            violation = j
            break
          errors[h + ": violation not reproduced by its replay file (%d)" % attempt] = rr.stdout[:600]
          cmd[cmd.index("--seed") + 1] = str(seed + 1000 * (attempt + 1))
        if violation: break
    def tot(k): return sum(j[k] for j in res)
    faults = {}; probes = {}; other = {}
    for j in res:
        for k, v in j["faults"].items():
            f = faults.setdefault(k, {"fired": 0, "runs": 0}); f["fired"] += v["fired"]; f["runs"] += v["runs"]
        for k, v in j["probes"].items(): probes[k] = probes.get(k, 0) + v
        for k, v in j.get("other_property_violations", {}).items(): other[j["harness"] + ": " + k] = v
    wall = time.time() - t0
    run_wall = sum(j["wall_s"] for j in res) or 1
    ev = {"property": prop, "tier": tier, "seed": seed, "level": c.get("level", "exploration"),
          "coverage": {
              "evaluations": tot("runs"), "distinct_nontrivial": tot("distinct_nontrivial"),
              "rule": "A case is one simulated run: the seed draws the operation history, the schedule and the fault sequence. "
                      "Two runs are the same if the hashes of all their simulation events and observed outcomes agree; a run is non-trivial if at least one fault fired or one preemption happened"
                      + (". This property has neither schedule nor fault in some harnesses; there every distinct history counts." if c.get("histories_only") else "."),
              "samples": [s[:1500] for j in res for s in j["samples"][:2]][:6] or ["(no run)"],
              "harnesses": {j["harness"]: {k: j[k] for k in ("runs", "distinct_histories", "distinct_nontrivial", "distinct_schedules", "steps", "switches", "preemptions", "sim_seconds", "sut_allocations", "known_hits", "wall_s")} for j in res},
              "simulated_runs_per_hour": int(tot("runs") / run_wall * 3600), "seeds_per_hour": int(tot("runs") / run_wall * 3600),
              "simulated_time_s": round(tot("sim_seconds"), 6), "scheduling_points": tot("steps"), "context_switches": tot("switches"), "preemptions": tot("preemptions"),
              "distinct_schedules": tot("distinct_schedules"), "distinct_histories": tot("distinct_histories"),
              "faults_injected": faults, "probes": probes, "determinism_gate": gate,
              "violations_of_other_properties_seen": other, "known_finding_hits": tot("known_hits"),
              "real_components": c["real"], "stubs": c["stubs"], "errors": errors, "build_s": round(build_s, 1)},
          "assumptions": c.get("assumptions", []), "wall_s": round(wall, 2), "violations": 1 if violation else 0}
    if c.get("histories_only"): ev["coverage"]["distinct_nontrivial"] = tot("distinct_histories")
    json.dump(ev, open(VERIF + "/evidence/%s.json" % prop, "w"), indent=1)
    for l in known: print("KNOWN-FINDING: property=%s %s" % (prop, l.split(" ", 2)[2]))
    print("%s: %d runs (%d distinct, %d schedules) in %.1fs, faults %s" % (prop, tot("runs"), tot("distinct_histories"), tot("distinct_schedules"), run_wall, {k: v["fired"] for k, v in faults.items()}))
    if violation:
        print(violation["violation_class"] + ": " + violation["violation_msg"][:2500])
        print("VIOLATION property=%s replay=%s" % (prop, violation["violation"])); sys.exit(1)
    if gate["mismatches"] or errors:
        print("no answer: ", json.dumps(errors)[:3000], gate); sys.exit(2)
    sys.exit(0)
main()
