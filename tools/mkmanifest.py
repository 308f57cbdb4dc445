"""Writes MANIFEST.json from the properties and the check modules present."""
import json
import pathlib
import re

ROOT = pathlib.Path(__file__).resolve().parent.parent
PENDING = "no check built yet"
props = [json.loads(l) for l in (ROOT / "properties.jsonl").read_text().splitlines() if l.strip()]
TECH = json.loads((ROOT / "tools" / "techniques.json").read_text())
checks, na = [], []
for p in props:
    i = p["id"]
    mod = ROOT / "harness" / "checks" / f"{i.lower()}.py"
    if not mod.exists():
        na.append({"property": i, "reason": PENDING})
        continue
    tech, note, *lvl = TECH[i]
    checks.append({
        "property": i,
        "quick_cmd": f"bin/check {i} quick",
        "thorough_cmd": f"bin/check {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": tech,
        "level": lvl[0] if lvl else "exploration",
        "level_note": note,
    })
(ROOT / "MANIFEST.json").write_text(json.dumps({
    "version": 1,
    "setup_cmd": "bin/setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "Runtime monitoring of the real code under generated, hostile and fault-injected workloads; see DESIGN.md. "
             "No hooks in /repo are needed: the monitors observe public outputs, wrapped public methods and files.",
}, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not claimed")
