#!/usr/bin/env python3
"""Regenerates properties.jsonl (from props.py) and MANIFEST.json (from the checks that exist)."""
import ast, json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(ROOT, "tools", "props.py")).read())
NA = json.load(open(os.path.join(ROOT, "tools", "not_applicable.json")))
checks = []
na = []
for x in P:
    f = os.path.join(ROOT, "checks", x["id"] + ".py")
    if os.path.exists(f):
        src = open(f).read()
        t = ast.parse(src)
        vals = {n.targets[0].id: ast.literal_eval(n.value) for n in t.body if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("TECHNIQUE", "NOTE")}
        checks.append({
            "property": x["id"],
            "quick_cmd": "python3 checks/run.py " + x["id"],
            "thorough_cmd": "VERIF_TIER=thorough python3 checks/run.py " + x["id"],
            "technique": vals.get("TECHNIQUE", "static analysis: path-sensitive abstract interpretation of MIR with per-path obligations and typestate automata"),
            "level": "other",
            "level_note": vals.get("NOTE", "Decided from the type-checked source (MIR) on every run, for all inputs and histories the abstract interpretation covers. Trusts rustc's MIR, the stub crates that stand in for dependencies missing offline, and the models of standard-library calls in engine/absint.py."),
        })
    else:
        na.append({"property": x["id"], "reason": NA.get(x["id"], "No check is built for this property yet.")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the checks read /repo's source through a compiler driver; nothing in /repo is instrumented."}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
