#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(os.path.join(H, "tools", "level_notes.json")))
checks = []
for l in open(os.path.join(H, "properties.jsonl")):
    p = json.loads(l)["id"]
    checks.append(dict(property=p, quick_cmd="./check.py %s" % p, thorough_cmd="./check.py %s --thorough" % p, evidence_file="evidence/%s.json" % p,
        technique="contract-based deductive verification (Verus) of the mechanically extracted source of the whole crate",
        level="proof", level_note=notes["all"] + " " + notes.get(p, "")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[],
    notes="No hooks in /repo. See DESIGN.md. KNOWN_FINDINGS.txt lists the recorded finding and the repaired defects.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1); open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
