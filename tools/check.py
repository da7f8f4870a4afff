#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]: decides one property on /repo's working tree.
Exit 0: held on everything explored. Exit 1: a line VIOLATION property=ID replay=PATH. Other: an error of the check."""
import json, os, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
V = build.V

def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = json.load(open(os.path.join(V, "tools", "specs.json")))[pid]
    rc = build.build([pid])
    if rc:
        print(f"{pid}: build failed", file=sys.stderr)
        return 3
    built = time.time()
    secs = spec.get(tier + "_s", 20 if tier == "quick" else 600)
    known = [k for k in json.load(open(os.path.join(V, "known_findings.json")))["findings"] if k["property"] == pid]
    out = os.path.join(build.B, pid + ".result.json")
    rdir = os.path.join(V, "replays")
    os.makedirs(rdir, exist_ok=True)
    replay = os.path.join(rdir, f"{pid}-{tier}-seed{seed}.json")
    for f in (out, replay):
        if os.path.exists(f): os.remove(f)
    cmd = [os.path.join(build.B, pid), "--seed", str(seed), "--runs", str(10**9), "--time", str(secs),
           "--min-time", "15" if tier == "quick" else "60", "--workers", str(os.cpu_count() or 8), "--out", out, "--replay-out", replay]
    for k in known: cmd += ["--known", k["class"]]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=secs + 600)
    if p.returncode not in (0, 1) or not os.path.exists(out):
        print(f"{pid}: simulator error {p.returncode}: {p.stderr[-2000:]}", file=sys.stderr)
        if os.path.exists(out): print(json.load(open(out)).get("error"), file=sys.stderr)
        return 4
    r = json.load(open(out))
    wall = time.time() - t0
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2),
          "coverage": {
              "evaluations": r["runs"],
              "distinct_nontrivial": r["distinct_nontrivial"],
              "rule": spec["rule"] + " Distinct: the hash of the run's event log (workload, faults, outcomes) was not seen before in this batch.",
              "samples": r["samples"] or ["(the first run failed)"],
              "simulated_runs_per_hour": int(r["runs"] / max(r["searched_s"], 0.01) * 3600),
              "seeds_per_hour": int(r["runs"] / max(r["searched_s"], 0.01) * 3600),
              "search_s": r["searched_s"], "build_s": round(built - t0, 2),
              "simulated_time_s": r["sim_seconds"],
              "faults_injected": r["faults"],
              "rare_conditions_hit": r["probes"],
              "distinct_executions": r["distinct"],
              "distinct_states": r["distinct_states"],
              "state_measure": spec["state"],
              "basic_blocks_reached": r["basic_blocks"],
              "basic_block_steps": r["steps"],
              "events_recorded": r["events"],
              "allocations_placed": r["allocations"],
              "runs_executed_twice_for_determinism": r["rechecked"],
              "determinism_mismatches": r["mismatched"],
              "unconfirmed_timeouts": r["unconfirmed_hangs"],
              "real_components": spec["real"],
              "stub_components": spec["stub"],
              "violations_listed_as_known": r["known_by"],
          }}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    for k in known:
        if k["class"] in r["known_by"]:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if r["violation"]:
        q = subprocess.run([os.path.join(build.B, pid), "--replay", replay], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        if q.returncode != 1:
            print(f"{pid}: the violation did not replay: {q.stdout[-1500:]}", file=sys.stderr)
            return 5
        print(f"{r['violation']['class']}: {r['violation']['detail'][:1500]}")
        print(f"replay with: {os.path.join(build.B, pid)} --replay {replay}")
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    print(f"{pid}: held on {r['runs']} simulated runs ({r['distinct_nontrivial']} distinct and non-trivial) in {wall:.0f} s")
    return 0

if __name__ == "__main__":
    sys.exit(main())
