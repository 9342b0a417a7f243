#!/usr/bin/env python3
# Regenerates MANIFEST.json from properties.jsonl.
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {"C19": "A pure function of script text and variable values within one evaluation: no schedule, clock, I/O, fault or history can change the outcome, so simulation has nothing to decide. The expressions do occur in the projects the other checks generate and their effect on builds is covered there; conditions, which have a history, are C24.",
      "C20": "Parsing is a pure function of the script text; no schedule, clock, fault or history takes part. Scripts with hostile quoting occur in the generated projects, but deciding the grammar is a job for a parser-directed technique, not for this one."}
NOTE = {
 "C03": "Kill points of the build process (alone or with its children) are sampled over all system calls of a build with emphasis on file changing ones; not an exhaustive enumeration.",
 "C09": "System call failures (errno, short, interrupted, disk full, persistent or transient) at sampled points of all system calls of sampled builds.",
 "C16": "Allocation failures (one, or all from a point on) at sampled points of sampled builds.",
}
G = "Seeded search: nothing found in the explored histories; violations replay exactly from a file. Real code: all of /repo's C sources. Trusted: the simulated kernel and libc, the simulated tools, the reference model (DESIGN.md). "
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash sim/build.sh", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: libc symbols of autark's objects are redirected to the simulator by objcopy when the checks build it. /repo carries 'fix:' commits only (known-findings.txt)."}
for p in props:
    i = p["id"]
    if i in NA: m["not_applicable"].append({"property": i, "reason": NA[i]}); continue
    m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
        "technique": "deterministic simulation with fault injection: seeded search over histories, schedules and faults against a reference model",
        "level": "exploration", "level_note": G + NOTE.get(i, "")})
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
