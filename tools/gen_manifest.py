#!/usr/bin/env python3
"""Generates /verif/MANIFEST.json from run/plan.py and the notes below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "run"))
import plan

NOTE = {
 "session": "TLC explores the TLA+ session model (Session.tla) exhaustively within each slice's bounds; every transition is replayed from the initial state on a real Session in two wire formats and everything observable is compared. Bounds: 3-4 parties, the protocols of Graphs.tla, one deviating message per behaviour (thorough: two, and all pairs of consecutive steps). Trusts TLC, the harness, and a deterministic digest-binding test signature scheme.",
}
TECH = "TLA+ model checked with TLC; every model transition replayed on the real code and compared"
OVERRIDE = plan.MANIFEST if hasattr(plan, "MANIFEST") else {}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in plan.PROPERTIES:
        continue
    tech, note = OVERRIDE.get(i, (TECH, NOTE["session"]))
    checks.append({"property": i, "quick_cmd": f"python3 run/check.py {i}", "thorough_cmd": f"python3 run/check.py {i} --thorough",
                   "technique": tech, "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "python3 run/setup.py", "checks": checks,
     "not_applicable": [{"property": i, "reason": plan.NOT_APPLICABLE.get(i, "no check yet")} for i in ids if i not in plan.PROPERTIES],
     "notes": "TLA+ with TLC; the harness is black-box (public API and serde only), so there are no hooks in /repo. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
