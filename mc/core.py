"""Bounded exhaustive exploration driver shared by all checks.

A property module enumerates *cases* (kind, payload) -- every behaviour of a
bounded space, in a fixed order -- and provides for each kind a function that
runs the case on the real code and compares every step with a reference model.
Cases are JSON-serialisable, so that each violation is a replayable artefact.
"""

from __future__ import annotations

import concurrent.futures as cf
import fnmatch
import hashlib
import importlib
import json
import logging
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback
from concurrent.futures.process import BrokenProcessPool
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
EVIDENCE = VERIF / "evidence"
FINDINGS = VERIF / "known-findings.txt"
DATA = REPO / "Tests" / "Data"


def samples():
    """(name relative to DATA, size) of all sample files of the repository"""
    files = sorted(DATA.glob("*.vfb")) + sorted((REPO / "Reverse").glob("*.vfb"))
    return [(os.path.relpath(p, DATA), p.stat().st_size) for p in files]


TIME_CAP = {"quick": 780, "thorough": 6 * 3600}


class Hang(BaseException):
    """Raised by the per-case watchdog; BaseException, so that no `except
    Exception` in the code under test can swallow it."""


class Mismatch(Exception):
    """The implementation disagrees with the reference model."""

    def __init__(self, fp, detail, replay=None):
        super().__init__(fp)
        self.fp, self.detail, self.replay = fp, detail, replay


def _alarm(signum, frame):
    raise Hang()


def jsonable(o):
    if isinstance(o, (bytes, bytearray)):
        return {"__hex__": bytes(o).hex()}
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [jsonable(x) for x in o]
    if o is None or isinstance(o, (str, int, float, bool)):
        return o
    return repr(o)


def short(o, n=400):
    s = o if isinstance(o, str) else json.dumps(jsonable(o), ensure_ascii=True)
    return s if len(s) <= n else s[: n - 20] + f"...({len(s)} chars)"


class Out:
    """Collects what one chunk of cases covered and which cases failed."""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.counters = {}
        self.fails = []  # (fp, detail, kind, payload)
        self.samples = []
        self.case = None

    def state(self, key):
        if not isinstance(key, (bytes, str)):
            key = repr(key)
        if isinstance(key, str):
            key = key.encode("utf-8", "surrogatepass")
        self.states.add(hashlib.blake2b(key, digest_size=8).digest())

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def fail(self, fp, detail, replay=None):
        kind, payload = replay or self.case
        self.fails.append((fp, short(detail, 1500), kind, payload))

    def eq(self, got, want, fp, what=""):
        if not same(got, want):
            d = first_diff(got, want)
            self.fail(
                fp,
                f"{what}: at {d[0]}: implementation {short(d[1])}, "
                f"reference {short(d[2])}",
            )
            return False
        return True


def norm(o):
    """tuples and lists are the same thing; bytes/str/dict/num are not."""
    if isinstance(o, (list, tuple)):
        return [norm(x) for x in o]
    if isinstance(o, dict):
        return {k: norm(v) for k, v in o.items()}
    if isinstance(o, bytearray):
        return bytes(o)
    return o


def same(a, b):
    return norm(a) == norm(b)


def first_diff(a, b, path="$"):
    a, b = norm(a), norm(b)
    if type(a) is not type(b) and not (
        isinstance(a, (int, float)) and isinstance(b, (int, float))
    ):
        return path, a, b
    if isinstance(a, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a:
                return f"{path}.{k}", "<absent>", b[k]
            if k not in b:
                return f"{path}.{k}", a[k], "<absent>"
            if a[k] != b[k]:
                return first_diff(a[k], b[k], f"{path}.{k}")
    elif isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_diff(x, y, f"{path}[{i}]")
        if len(a) != len(b):
            return f"{path} length", a, b
    return path, a, b


def exc_fp(e):
    """Where the implementation raised: exception type and function names are
    used only to tell distinct violations apart."""
    return f"{type(e).__name__}"


def load(pid):
    return importlib.import_module(f"mc.props.{pid.lower()}")


def run_case(mod, kind, payload, out, limit):
    out.case = (kind, payload)
    out.evals += 1
    n = len(out.fails)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        mod.KINDS[kind](payload, out)
    except Hang:
        out.fail(f"{kind}/hang", f"no result within {limit} s")
    except Mismatch as m:
        out.fail(m.fp, m.detail, m.replay)
    except (KeyboardInterrupt, SystemExit) as e:
        out.fail(f"{kind}/exit", f"{type(e).__name__}: {e}")
    except BaseException as e:  # noqa: BLE001
        tb = traceback.extract_tb(e.__traceback__)
        where = "; ".join(f"{Path(f.filename).name}:{f.name}" for f in tb[-4:])
        out.fail(
            f"{kind}/raised/{type(e).__name__}",
            f"{type(e).__name__}: {e} ({where})",
        )
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return len(out.fails) - n


def _init_worker(mem):
    logging.disable(50)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(3000)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)


def _work(pid, chunk, limit, deadline):
    mod = load(pid)
    out = Out()
    hangs = 0
    capped = 0
    for i, (kind, payload) in enumerate(chunk):
        if time.time() > deadline:
            capped = len(chunk) - i
            break
        run_case(mod, kind, payload, out, limit)
        if out.fails and out.fails[-1][0].endswith("/hang"):
            hangs += 1
        if len(out.fails) > 60 or hangs >= 2:
            capped = len(chunk) - i - 1
            break
    return (
        out.states,
        out.transitions,
        out.traces,
        out.evals,
        out.counters,
        out.fails,
        out.samples,
        capped,
    )


def findings(pid):
    """[(fingerprint pattern, text)] recorded for this property."""
    res = []
    if FINDINGS.exists():
        for line in FINDINGS.read_text().splitlines():
            line = line.strip()
            if not line.startswith("finding: "):
                continue
            head, _, text = line[len("finding: ") :].partition(" | ")
            parts = dict(p.split("=", 1) for p in head.split())
            if parts["property"] == pid:
                res.append((parts["fp"], text))
    return res


def chunks(it, n):
    buf = []
    for x in it:
        buf.append(x)
        if len(buf) >= n:
            yield buf
            buf = []
    if buf:
        yield buf


def run_check(pid, tier, seed):
    t0 = time.time()
    mod = load(pid)
    limit = getattr(mod, "CASE_LIMIT", 20)
    csize = getattr(mod, "CHUNK", 32)
    if tier == "quick":
        limit = min(limit, 100)
    procs = min(getattr(mod, "PROCS", 8), os.cpu_count() or 1, int(os.environ.get("MC_PROCS", 99)))
    enough = int(os.environ.get("MC_ENOUGH", 3))  # new fingerprints to stop at
    hangs = 0
    mem = getattr(mod, "MEM", 3 << 30)
    deadline = t0 + TIME_CAP[tier]
    total = Out()
    capped = 0
    samples = []
    seen_kinds = {}
    broken = None
    stop = False
    known = findings(pid)

    def is_known(fp):
        return any(fnmatch.fnmatchcase(fp, k) for k, _ in known)

    new_fps = set()
    gen = chunks(mod.cases(tier), csize)
    ctx = mp.get_context("fork")
    ncases = 0
    queued_exhausted = False
    try:
        with cf.ProcessPoolExecutor(
            procs, mp_context=ctx, initializer=_init_worker, initargs=(mem,)
        ) as ex:
            pending = {}
            while True:
                while (
                    not stop and not queued_exhausted and len(pending) < procs * 3
                ):
                    ch = next(gen, None)
                    if ch is None:
                        queued_exhausted = True
                        break
                    for kind, payload in ch:
                        ncases += 1
                        c = seen_kinds.get(kind, 0)
                        if c < 2 or (ncases % 997 == 0 and len(samples) < 24):
                            samples.append({"kind": kind, "case": short(payload, 300)})
                        seen_kinds[kind] = c + 1
                    pending[ex.submit(_work, pid, ch, limit, deadline)] = ch
                if not pending:
                    break
                done, _ = cf.wait(pending, return_when=cf.FIRST_COMPLETED)
                for f in done:
                    ch = pending.pop(f)
                    try:
                        r = f.result()
                    except BrokenProcessPool:
                        broken = ch
                        raise
                    total.states |= r[0]
                    total.transitions += r[1]
                    total.traces += r[2]
                    total.evals += r[3]
                    for k, v in r[4].items():
                        total.counters[k] = total.counters.get(k, 0) + v
                    total.fails += r[5]
                    capped += r[7]
                    for fl in r[5]:
                        if not is_known(fl[0]):
                            new_fps.add(fl[0])
                            hangs += fl[0].endswith("/hang")
                if time.time() > deadline or len(new_fps) >= enough or hangs >= 3 or (
                    new_fps and len(total.fails) > 400
                ):
                    stop = True
    except BrokenProcessPool:
        kind, payload = broken[0]
        total.fails.append(
            (
                f"{kind}/worker-died",
                "the process running these cases was killed or crashed",
                "__chunk__",
                broken,
            )
        )
        new_fps.add(f"{kind}/worker-died")
    if stop and not new_fps:
        capped += 1

    # report
    known_hit = {}
    viol = {}
    for fp, detail, kind, payload in total.fails:
        hit = False
        for k, text in known:
            if fnmatch.fnmatchcase(fp, k):
                known_hit.setdefault(k, text)
                hit = True
        if not hit:
            viol.setdefault(fp, []).append((detail, kind, payload))
    for k, text in known_hit.items():
        print(f"KNOWN-FINDING: property={pid} {text}")

    replays = []
    for i, (fp, lst) in enumerate(sorted(viol.items())):
        # smallest case first
        lst.sort(key=lambda x: len(json.dumps(jsonable(x[2]))))
        detail, kind, payload = lst[0]
        rdir = EVIDENCE / "replays"
        rdir.mkdir(parents=True, exist_ok=True)
        h = hashlib.blake2b(fp.encode(), digest_size=4).hexdigest()
        rp = rdir / f"{pid}-{h}.json"
        rp.write_text(
            json.dumps(
                {
                    "property": pid,
                    "fingerprint": fp,
                    "detail": detail,
                    "kind": kind,
                    "payload": payload,
                    "others": len(lst) - 1,
                },
                indent=1,
                default=repr,
            )
        )
        replays.append((rp, fp, detail))

    level = getattr(mod, "LEVEL", "model_checking")
    cov = {
        "exhaustive": not capped and not stop,
        "cases": ncases,
        "cases_by_kind": seen_kinds,
        "bounds": mod.BOUNDS[tier] if hasattr(mod, "BOUNDS") else "",
        "rule": getattr(mod, "RULE", ""),
        "samples": samples or ["none"],
        "counters": total.counters,
        "known_findings_reproduced": len(known_hit),
    }
    if level == "model_checking":
        cov.update(
            states=len(total.states),
            transitions=total.transitions,
            traces_validated_against_impl=total.traces,
        )
    else:
        cov.update(evaluations=total.evals, distinct_nontrivial=len(total.states))
    if capped:
        cov["cap_hit"] = f"{capped} cases (or the rest of the space) not run"
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    EVIDENCE.mkdir(exist_ok=True)
    (EVIDENCE / f"{pid}.json").write_text(json.dumps(ev, indent=1))
    print(
        f"{pid} {tier}: {ncases} cases, {len(total.states)} states, "
        f"{total.transitions} transitions, {total.traces} traces validated, "
        f"{len(viol)} violations, {len(known_hit)} known findings, "
        f"{time.time() - t0:.1f} s" + (f", CAPPED {capped}" if capped else "")
    )
    if viol:
        for rp, fp, detail in replays:
            print(f"  {fp}: {detail}")
            print(f"VIOLATION property={pid} replay={rp}")
        return 1
    return 0


def run_replay(pid, path):
    mod = load(pid)
    d = json.loads(Path(path).read_text())
    out = Out()
    logging.disable(50)
    cases = (
        [(d["kind"], d["payload"])] if d["kind"] != "__chunk__" else d["payload"]
    )
    for kind, payload in cases:
        run_case(mod, kind, payload, out, getattr(mod, "CASE_LIMIT", 20))
    for fp, detail, *_ in out.fails:
        print(f"{fp}: {detail}")
        print(f"VIOLATION property={pid} replay={path}")
    if not out.fails:
        print("replay: property held")
    return 1 if out.fails else 0
