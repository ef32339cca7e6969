#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl, the check modules present
in sim/props, and tools/na.json (reasons for what is not claimed)."""
import json
import pathlib
ROOT = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(x) for x in (ROOT / "properties.jsonl").read_text().splitlines()]
notes = json.loads((ROOT / "tools/levels.json").read_text())
na = notes["not_applicable"]
checks, missing = [], []
for p in props:
    pid = p["id"]
    if (ROOT / f"sim/props/{pid.lower()}.py").exists():
        checks.append(dict(
            property=pid, quick_cmd=f"./check {pid} quick",
            thorough_cmd=f"./check {pid} thorough",
            evidence_file=f"evidence/{pid}.json",
            technique=notes["technique"].get(pid, notes["technique"]["*"]),
            level="exploration",
            level_note=notes["note"].get(pid, "") + notes["note"]["*"]))
    else:
        missing.append(dict(property=pid, reason=na.get(pid, "check not built yet")))
out = dict(version=1, setup_cmd="./setup.sh", checks=checks,
           not_applicable=missing,
           notes="No hooks in /repo: every seam is below the standard library "
                 "(see DESIGN.md). Defects found are listed in "
                 "KNOWN_FINDINGS.txt.")
(ROOT / "MANIFEST.json").write_text(json.dumps(out, indent=1) + "\n")
print(len(checks), "checks;", len(missing), "not applicable")
