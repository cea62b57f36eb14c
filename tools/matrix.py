#!/usr/bin/env python3
"""Which quick checks catch which planted change: matrix.py [ID ...] [--own]
Works on scratch copies of /repo; writes tools/caught.json."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

V = Path(__file__).resolve().parent.parent
own = "--own" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(s.name for s in (V / "seeded").iterdir())
pids = [json.loads(x)["id"] for x in (V / "properties.jsonl").read_text().splitlines()]
res = V / "tools" / "caught.json"
caught = json.loads(res.read_text()) if res.exists() else {}
for i in ids:
    with tempfile.TemporaryDirectory(prefix="matrix") as tmp:
        repo = Path(tmp) / "repo"
        subprocess.run(["cp", "-a", "/repo", str(repo)], check=True)
        subprocess.run(["git", "-C", str(repo), "apply", str(V / "seeded" / i / "patch.diff")], check=True)
        verif = Path(tmp) / "verif"
        shutil.copytree(V, verif, ignore=shutil.ignore_patterns(".git", "seeded", "replays"))
        p = json.loads((V / "seeded" / i / "meta.json").read_text())["property"]
        hit = []
        for pid in [p] + ([] if own else [x for x in pids if x != p]):
            r = subprocess.run([str(verif / "check.py"), pid], capture_output=True, text=True,
                               env={**os.environ, "VERIF_REPO": str(repo)})
            if r.returncode == 1 and f"VIOLATION property={pid}" in r.stdout:
                hit.append(pid)
            elif r.returncode:
                print(i, pid, "exit", r.returncode)
        if own:
            hit = hit + [x for x in caught.get(i, "").split(", ") if x and x not in hit and x != p]
        caught[i] = ", ".join(hit) or "none"
        print(i, p, "->", caught[i], flush=True)
        res.write_text(json.dumps(caught, indent=1) + "\n")
