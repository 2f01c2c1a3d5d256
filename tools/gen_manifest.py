#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from sim/props.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(V, "sim"))
import props
NA = {
 "C18": "code generation is not compiled in the pinned build (MKL backend, no codegen) and its backend needs QDLDL, which this sandbox does not have",
 "C19": "code generation is not compiled in the pinned build and needs QDLDL, which this sandbox does not have",
 "C20": "the derivative functions are not compiled in the pinned build and need QDLDL, which this sandbox does not have",
 "C21": "a numerical identity of a pure function: no schedule, time, I/O, fault or history for a simulator to control",
 "C22": "numerical identities of pure functions: no schedule, time, I/O, fault or history for a simulator to control",
}
NOTE = {
 "exploration": "Seeded search over plans (histories, data, settings, schedules, faults); no exhaustiveness claimed. Real OSQP and MKL code runs; heap, clocks, signals, threads and printing are simulated. Trusts the reference model in sim/oracle.cpp and MKL.",
 "fault_enumeration": "For each sampled history the fault is placed at every point (or a seeded sample of the points when there are many) where it can strike. Histories themselves are sampled. Real OSQP and MKL code runs; heap, clocks, signals and threads are simulated.",
}
checks = []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in props.SPEC:
        s = props.SPEC[p]
        checks.append({"property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough",
                       "evidence_file": f"evidence/{p}.json",
                       "technique": "deterministic simulation with fault injection: " + s["judge"], "level": s["level"], "level_note": NOTE[s["level"]]})
        NA.pop(p, None)
m = {"version": 1, "setup_cmd": "python3 sim/build.py mkl",
     "hooks": {"guard": "none needed (every seam is reached by symbol renaming at link time and by OSQP_CUSTOM_MEMORY / OSQP_CUSTOM_PRINTING)", "enable": "not applicable", "source_commits": []},
     "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "Genuine defects found are repaired by the fix: commits in /repo and listed in known-findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
