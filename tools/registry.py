#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json
import os
from pathlib import Path

HERE = Path(__file__).resolve().parent.parent
P = []
INP = ["inputs"]


def prop(id, title, statement, over, qtext, why, files, mech, observe=(), note="",
         technique="exhaustive bounded exploration of the real code against a reference model",
         level="model_checking"):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, observe=list(observe), note=note,
                  technique=technique, level=level))


exec((HERE / "tools" / "registry_data.py").read_text())

NOTE = (
    "Exhaustive within the bounds stated in the evidence file; the verdict comes from "
    "comparing every explored state of the real code with an independent reference written "
    "in plain Python (mc/). Nothing is claimed outside the stated alphabets and bounds. "
)


def main():
    with open(HERE / "properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                    "observe_at": p["observe"],
                    "hook_needed": None,
                },
            }) + "\n")
    checks = []
    for p in P:
        checks.append({
            "property": p["id"],
            "quick_cmd": f"./check.py {p['id']} --tier quick",
            "thorough_cmd": f"./check.py {p['id']} --tier thorough",
            "technique": p["technique"],
            "level": p["level"],
            "level_note": NOTE + p["note"],
        })
    man = {
        "version": 1,
        "setup_cmd": "./tools/setup.sh",
        "checks": checks,
        "not_applicable": NOT_APPLICABLE,
        "notes": "No hooks in /repo are needed: all checks drive the public API of the working tree "
                 "(PYTHONPATH=/repo/src). See DESIGN.md.",
    }
    (HERE / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
    print(len(P), "properties")


main()
