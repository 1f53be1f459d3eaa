#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N]

Decides one property by running its harnesses, built from /repo's working tree,
under their monitors. Exit 0: held on everything observed. Exit 1: violation.
Exit 2: the check itself could not be completed."""
import argparse, os, sys, time, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import build, runner, specs


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    spec = specs.SPECS[a.property]
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    try:
        jobs = specs.make_jobs(a.property, tier, a.seed)
    except build.BuildError as e:
        print(f"BUILD-FAILED property={a.property}\n{e}")
        return 2
    tb = time.time() - t0
    results = runner.run_all(a.property, jobs, spec.get("parallel", build.NCPU), tier)
    violations, inconclusive = [], []
    certain = any(runner.classify(r)[0] == "violation" for r in results)
    # A run that gave no answer (time limit, no free port, killed) is repeated once, alone.
    for i, r in enumerate(results):
        k, why = runner.classify(r)
        if k == "inconclusive" and not certain:
            print(f"retrying: {why}")
            if tier == "quick":
                jobs[i].timeout = max(5, min(jobs[i].timeout, 800 - (time.time() - t0)))
            results[i] = r = runner.run_all(a.property, [jobs[i]], 1, tier)[0]
            k, why = runner.classify(r)
            certain = k == "violation"
        if k == "violation":
            violations.append((r, why))
        elif k == "inconclusive":
            inconclusive.append((r, why))
    new, known = [], {}
    finds = runner.known_findings(a.property)
    for r, why in violations:
        hit = next((f for f in finds if f["match"] in r.out), None)
        if hit:
            known[hit["what"]] = 1
        else:
            new.append((r, why))
    for k in known:
        print(f"KNOWN-FINDING: property={a.property} {k}")
    wall = time.time() - t0
    runner.write_evidence(a.property, spec, tier, a.seed, results, wall, len(new), {"build_s": round(tb, 1)})
    for n, (r, why) in enumerate(new[:5]):
        p = runner.save_replay(a.property, n, r, why)
        print(f"{r.job.label}: {why[:600]}")
        print(f"VIOLATION property={a.property} replay={p}")
    ev = sum(r.stats["evaluations"] for r in results if r.stats)
    print(f"{a.property} {tier} seed={a.seed}: {len(jobs)} runs, {ev} cases, {len(new)} violations, build {tb:.1f} s, total {wall:.1f} s")
    if new:
        return 1
    if inconclusive:
        for r, why in inconclusive:
            print(f"NO-ANSWER {r.job.label}: {why[:800]}")
        return 2
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        print("CHECK-FAILED")
        rc = 2  # no answer
    sys.exit(rc)
