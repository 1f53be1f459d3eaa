#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the specs (python3 -m lib.manifest)."""
import json, os, sys
sys.dont_write_bytecode = True
from . import specs, build

NA = {
    "C25": "The published protocol schema is not available offline, and the code generator is run by the maintainers against the online schema; nothing executes here that a monitor could compare. Field and message names are checked against a table recorded from the declared members in C06 instead.",
}


def main():
    checks = []
    ids = [json.loads(l)["id"] for l in open(os.path.join(build.VERIF, "properties.jsonl"))]
    for pid in ids:
        if pid in NA or pid not in specs.SPECS:
            continue
        s = specs.SPECS[pid]
        checks.append({
            "property": pid,
            "quick_cmd": f"python3 check.py {pid}",
            "thorough_cmd": f"python3 check.py {pid} --tier thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": s["technique"],
            "level": s.get("level", "exploration"),
            "level_note": s["note"],
        })
    na = [{"property": p, "reason": r} for p, r in NA.items()]
    for pid in ids:
        if pid not in NA and pid not in specs.SPECS:
            na.append({"property": pid, "reason": "check not built yet"})
    m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: schedules are perturbed and faults injected at link time (-Wl,--wrap) in the harnesses. Repairs of defects found are the fix: commits in /repo, listed in known-findings.json."}
    with open(os.path.join(build.VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
