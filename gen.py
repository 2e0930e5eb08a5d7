#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and jobs.py."""
import json, os

from jobs import JOBS
from props import P

HERE = os.path.dirname(os.path.abspath(__file__))
PENDING = "its monitors are not built yet"

with open(HERE + "/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=p["mechanism"], observe_at=p["observe"], hook_needed=None)),
            ensure_ascii=False) + "\n")

manifest = dict(
    version=1,
    setup_cmd="python3 run.py selftest",
    checks=[dict(property=p["id"], quick_cmd=f"python3 run.py check {p['id']}",
                 thorough_cmd=f"VERIF_TIER=thorough python3 run.py check {p['id']}",
                 technique="runtime monitoring: " + p["technique"], level="exploration",
                 level_note=p["note"] + ("; assumes: " + "; ".join(p["assume"]) if p["assume"] else ""))
            for p in P if p["id"] in JOBS],
    not_applicable=[dict(property=p["id"], reason=PENDING) for p in P if p["id"] not in JOBS],
    notes="No hooks in /repo: the monitors attach through build overlays (see DESIGN.md).")
with open(HERE + "/MANIFEST.json", "w") as f:
    json.dump(manifest, f, indent=1, ensure_ascii=False)
    f.write("\n")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
