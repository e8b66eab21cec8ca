#!/usr/bin/env python3
"""Rewrites MANIFEST.json from properties.jsonl and the harness packages present."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(os.path.join(root, "tools", "notes.json")))
checks, na = [], []
for line in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.isdir(os.path.join(root, "harness", i.lower())) and not notes.get(i, {}).get("skip"):
        checks.append({
            "property": i,
            "quick_cmd": f"./check {i}",
            "thorough_cmd": f"./check {i}",
            "technique": "symbolic execution of the Go SSA of /repo with an SMT solver; counterexamples replayed on the compiled code",
            "level": "model_checking",
            "level_note": notes.get(i, {}).get("note", "Holds for every value of the symbolic inputs within the bounds in DESIGN.md and the evidence file; trusts the engine's Go semantics (validated per run on sampled paths against the compiled code) and the solver's unsat answers."),
        })
    else:
        na.append({"property": i, "reason": notes.get(i, {}).get("reason", "check not built yet")})
m = {"version": 1, "setup_cmd": "bash build.sh", "checks": checks, "not_applicable": na}
open(os.path.join(root, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks", len(na), "not applicable")
