#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that they stay in step."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BINS = json.load(open(os.path.join(V, "tools", "bins.json")))
P = []
NA = []

TECH = "runtime monitoring: online oracle over seeded workloads of the real library"


def p(id, title, statement, over, text, why, files, mech, note, observe=None, tech=TECH, na=None):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe or ["return values of the public functions"],
            "hook_needed": None,
        },
    })
    if na:
        NA.append({"property": id, "reason": na})
    else:
        CHECKS.append((id, tech, " ".join(note.split())))
        LINES.append(f"- **{id} {title}.** {' '.join(note.split())} Over: {text}. Beyond the tests: {' '.join(why.split())}")


CHECKS = []
LINES = []
I = ["inputs"]

exec(open(os.path.join(V, "tools", "table.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")

man = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [
        {"property": id, "quick_cmd": f"./run.sh {id}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {id}",
         "technique": tech, "level": "exploration", "level_note": note}
        for id, tech, note in CHECKS
    ],
    "not_applicable": NA,
    "notes": "No hooks: every monitor observes through the public interface. Each run writes evidence/<id>.json; a replay file of a violation is run again with ./replay.sh FILE.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
design = os.path.join(V, "DESIGN.md")
doc = open(design).read()
head, rest = doc.split("## Oracles, property by property\n")
tail = rest[rest.index("\n\n"):]
open(design, "w").write(head + "## Oracles, property by property\n" + "\n".join(LINES) + tail)
missing = [c[0] for c in CHECKS if c[0] not in BINS]
assert not missing, missing
print(len(P), "properties,", len(CHECKS), "checks,", len(NA), "not applicable")
