"""Writes MANIFEST.json."""
import importlib
import json
import os
import sys

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
TIMELINE = "deterministic simulation of a fight with seeded fault injection (late, lost, doubled, reordered presses, deaths, downtime, tick offsets), compared with an executable reference model"
TECH = {
    "C01": "deterministic simulation of processes: the same work in fresh interpreters with seeded hash seed, wall clock, heap, collector and history; outcomes compared",
    "C02": "deterministic thread simulation: real threads switched by a seeded scheduler at executed lines; each result compared with the one computed alone",
    "C03": "deterministic crash injection: interrupts and allocation failures at seeded executed lines, then retry on the same objects; compared with the undisturbed outcome",
    "C04": "deterministic simulation of callers: seeded histories of submission orders, requests and reuse; compared with the plain history",
    "C14": "deterministic simulation with the random generator behind a seam: seeded, extreme and stuck draws; every sample recomputed by an independent formula",
    "C15": "deterministic simulation with stratified draws through the random-generator seam; analytic statistics compared with an independent model and with the samples",
    "C16": "deterministic simulation of combined rotations with controlled draws; kill times recomputed by a reference merge",
    "C17": "deterministic simulation of file reads with fault injection (short reads, errors at any read, torn, missing and empty files); compared with a reference parser",
    "C18": "deterministic simulation with controlled draws over seeded hit histories and intervals; compared with a reference",
}
NOTE = ("Seeded search over simulated runs of the real code; a violation is reported with seed, minimised trace and replay file. Not exhaustive: what the sampled "
        "runs do not reach is not excluded. Trusts the reference model or the reference run described in DESIGN.md.")
NA = {
    "N01": "A closed formula of its arguments, with no time, concurrency, I/O, randomness or history: nothing to schedule and no fault to inject. (Where the simulation depends on it, in sampled damage and in press timing, C11, C14 and C15 recompute it independently.)",
    "N02": "Static data tables; their truth is in the game's patch notes, which are not in the repository, and no schedule or fault changes them. (C02 decides that building them at the same time does not mix them.)",
    "N04": "A pure look-up from a set of conditions to an entry; no schedule or fault is involved. (The timeline checks' reference model resolves conditions independently for the libraries they generate.)",
}
checks = []
for i in range(1, 22):
    n = f"C{i:02d}"
    if not os.path.exists(os.path.join(root, "checks", n.lower() + ".py")):
        continue
    checks.append({"property": n, "quick_cmd": f"/opt/venv/bin/python check.py {n} --tier quick", "thorough_cmd": f"/opt/venv/bin/python check.py {n} --tier thorough",
                   "technique": TECH.get(n, TIMELINE), "level": "exploration", "level_note": NOTE})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/selftest.py", "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
