#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
PURE = "a pure function of its input: no schedule, clock, fault, I/O or interleaving can influence it, so deterministic simulation has nothing to decide"
NA = {"P01": PURE, "P02": PURE, "P03": PURE}
CLAIMED = sys.argv[1].split(",") if len(sys.argv) > 1 else None
ENGINE = "deterministic simulation: seeded virtual clock and pause/resume schedule around the real evaluator"
SIMOS = "deterministic simulation: unmodified binary on a simulated OS (seeded thread scheduling, time, network and fault injection)"
TECH = {
    "Q01": ENGINE + "; differential against the uninterrupted run",
    "Q02": ENGINE + "; reference model of the query language",
    "Q03": ENGINE + "; reference enumeration of all matches",
    "Q04": ENGINE + "; prefix check against the unlimited run",
    "Q05": ENGINE + "; search work between two clock reads (hook) and bounded progress",
    "Q06": ENGINE + "; order relation over the recorded stream",
}
checks = []
for p in props:
    i = p["id"]
    if i in NA or (CLAIMED and i not in CLAIMED):
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"bash check.sh {i}",
        "thorough_cmd": f"env VERIF_TIER=thorough bash check.sh {i}",
        "technique": TECH.get(i, SIMOS),
        "level": "exploration",
        "level_note": "Seeded search over inputs, schedules and faults: a quiet run is evidence, not proof. Trusts the simulator and the reference model.",
    })
na = [{"property": k, "reason": v} for k, v in NA.items()]
for p in props:
    if p["id"] not in NA and CLAIMED and p["id"] not in CLAIMED:
        na.append({"property": p["id"], "reason": "the simulator that decides it is still being built"})
json.dump({"version": 1, "setup_cmd": "bash check.sh setup",
           "hooks": {"guard": "cfg noodle_sim", "enable": "RUSTFLAGS=\"--cfg noodle_sim\" (check.sh, for the engine simulator; the server and the command-line tool run unmodified)",
                     "source_commits": ["652a2079fa78358b29b813d855c26bc9e0cfb294"]},
           "checks": checks, "not_applicable": na},
          open(V + "/MANIFEST.json", "w"), indent=1)
