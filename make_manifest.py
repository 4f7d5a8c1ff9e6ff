#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and harness/checks.json."""
import json, os

here = os.path.dirname(os.path.abspath(__file__))
checks = json.load(open(os.path.join(here, "harness", "checks.json")))
out, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if pid not in checks:
        na.append({"property": pid, "reason": "no check built yet"})
        continue
    c = checks[pid]
    out.append({
        "property": pid,
        "quick_cmd": "python3 check.py " + pid,
        "thorough_cmd": "python3 check.py %s --thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": c["technique"],
        "level": "exploration",
        "level_note": c["note"],
    })
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {"guard": "none", "enable": "no hooks: the checks use the exported API and the built program", "source_commits": []},
    "checks": out,
    "not_applicable": na,
    "notes": "See DESIGN.md. Findings: known-findings.txt.",
}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
