#!/usr/bin/env python3
"""check.py PID [--replay FILE] -- decide one property (tier from VERIF_TIER
or --tier); exit 0 = held on everything explored, 1 = violation."""
import os
import sys

PY = "/opt/venv/bin/python"
if os.path.exists(PY) and os.path.realpath(sys.prefix) != "/opt/venv":
    os.execv(PY, [PY, "-B", os.path.abspath(__file__), *sys.argv[1:]])

here = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ["PYTHONHASHSEED"] = "0"
repo = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [here, os.path.join(repo, "src")]


def main(argv):
    import argparse
    import traceback

    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    a = ap.parse_args(argv)
    tier = "thorough" if a.tier == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    try:
        from mc import core

        if a.replay:
            return core.run_replay(a.pid, a.replay)
        return core.run_check(a.pid, tier, seed)
    except BaseException:
        # The package cannot even be imported or driven through its public
        # interface: nothing the property promises is available.
        traceback.print_exc()
        rp = os.path.join(here, "evidence", "replays", a.pid + "-driver.txt")
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        with open(rp, "w") as f:
            traceback.print_exc(file=f)
        print(f"VIOLATION property={a.pid} replay={rp}")
        return 1


if __name__ == "__main__":
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
