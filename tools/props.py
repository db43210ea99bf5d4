#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/table.py (the one place both are kept)."""
import json
import sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V / "tools"))
from table import NOT_APPLICABLE, P  # noqa: E402

TECH = "contract-based deductive verification of the real Python source (pyvc VC generator, z3)"
NOTE = (
    "Every obligation the contracts generate from /repo's current source is discharged by the solver on every run; loops over "
    "unbounded data are cut by inferred and checked invariants. Trusted: pyvc's reading of Python (cross-checked by running a "
    "model of each path under CPython), its library theory, z3, and the assumptions listed in the evidence file."
)

props, checks = [], []
for p in P:
    props.append({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["quant"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                    "observe_at": p.get("observe", []), "hook_needed": None},
    })
    if p["id"] in NOT_APPLICABLE:
        continue
    checks.append({
        "property": p["id"], "quick_cmd": f"bin/check {p['id']}", "thorough_cmd": f"bin/check {p['id']} --thorough",
        "technique": TECH, "level": p.get("level", "proof"), "level_note": p.get("note", "") + (" " if p.get("note") else "") + NOTE,
    })
(V / "properties.jsonl").write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in props))
(V / "MANIFEST.json").write_text(json.dumps({
    "version": 1, "setup_cmd": "bin/setup", "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
    "notes": "No hooks: contracts are sidecar files in specs/, /repo carries only fix: commits.",
}, indent=1, ensure_ascii=False) + "\n")
for p in props:
    n = len(p["statement"].split(". "))
    if len(p["title"]) > 80 or n > 3:
        print("too long:", p["id"], len(p["title"]), n)
print(len(props), "properties,", len(checks), "claimed")
sys.path.insert(0, str(V))
from pyvc import anchors  # noqa: E402

anchors.write("/repo/kasa", V / "specs")
