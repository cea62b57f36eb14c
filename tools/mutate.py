#!/usr/bin/env python3
"""Systematic mutation of vfbLib, to find gaps of the checks (development tool).

mutate.py WORKDIR [--workers N] [--shard i/n] [file patterns]
Works on scratch copies. For each mutant that passes the test suite, the quick
checks whose explored lines include it are run, fastest first, until one reports
a violation. Survivors are listed in WORKDIR/survivors.txt.
Line coverage per check is expected in WORKDIR/cov_Cnn.json.
"""
import ast
import concurrent.futures as cf
import fnmatch
import hashlib
import json
import os
import shutil
import subprocess
import sys
import threading
from pathlib import Path

V = Path(__file__).resolve().parent.parent
SRC = Path("/repo/src/vfbLib")
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">",
       ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
CTXT = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
        ast.In: "in", ast.NotIn: "not in", ast.Is: "is", ast.IsNot: "is not"}
BIN = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "//"), ast.FloorDiv: ("//", "*"), ast.Div: ("/", "*"),
       ast.BitAnd: ("&", "|"), ast.BitOr: ("|", "&"), ast.LShift: ("<<", ">>"), ast.RShift: (">>", "<<"), ast.Mod: ("%", "//")}


def mutants(path):
    """[(line, description, new text)]"""
    text = path.read_text()
    lines = text.splitlines(keepends=True)
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln.encode()))
    raw = text.encode()

    def off(l, c):
        return starts[l - 1] + c

    def seg(n):
        return raw[off(n.lineno, n.col_offset) : off(n.end_lineno, n.end_col_offset)].decode()

    res = []

    def sub(n, new, what):
        a, b = off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)
        res.append((n.lineno, what, (raw[:a] + new.encode() + raw[b:]).decode()))

    skip = set()
    tree = ast.parse(text)
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and "TYPE_CHECKING" in ast.unparse(n.test):
            skip |= set(ast.walk(n))
        elif isinstance(n, (ast.Assert, ast.Raise, ast.Import, ast.ImportFrom, ast.AnnAssign)) and not (
            isinstance(n, ast.AnnAssign) and n.value is not None
        ):
            skip |= set(ast.walk(n))
        elif isinstance(n, ast.AnnAssign):
            skip |= set(ast.walk(n.annotation))
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            for a in ast.walk(n):
                if isinstance(a, ast.arg) and a.annotation:
                    skip |= set(ast.walk(a.annotation))
            if isinstance(n, ast.FunctionDef) and n.returns:
                skip |= set(ast.walk(n.returns))
        elif isinstance(n, ast.Expr):
            s = ast.unparse(n)
            if s.startswith(("logger.", "print(", "warnings.", "logging.")) or isinstance(n.value, ast.Constant):
                skip |= set(ast.walk(n))
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = type(n.ops[0])
            l, r = seg(n.left), seg(n.comparators[0])
            sub(n, f"{l} {CMP[o]} {r}", f"{CTXT[o]} -> {CMP[o]}")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant | ast.JoinedStr):
            a, b = BIN[type(n.op)]
            sub(n, f"({seg(n.left)}) {b} ({seg(n.right)})", f"{a} -> {b}")
        elif isinstance(n, ast.BoolOp):
            w = "or" if isinstance(n.op, ast.And) else "and"
            sub(n, f" {w} ".join(f"({seg(v)})" for v in n.values), f"-> {w}")
            for i, v in enumerate(n.values):
                rest = [seg(x) for j, x in enumerate(n.values) if j != i]
                o = "and" if w == "or" else "or"
                sub(n, f" {o} ".join(f"({x})" for x in rest), f"drop operand {i}")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub, ast.Invert)):
            sub(n, f"({seg(n.operand)})", "drop unary")
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                sub(n, str(not n.value), "flip bool")
            elif isinstance(n.value, int):
                sub(n, f"({n.value + 1})", f"{n.value} -> +1")
                if n.value > 1:
                    sub(n, f"({n.value - 1})", f"{n.value} -> -1")
            elif isinstance(n.value, float):
                sub(n, f"({n.value * 2 + 1})", "float")
        elif isinstance(n, ast.If) and not isinstance(n.test, ast.Constant):
            sub(n.test, f"(not ({seg(n.test)}))", "negate if")
            if isinstance(n.test, (ast.Name, ast.Call, ast.Attribute, ast.Compare)):
                sub(n.test, "True", "if True")
                sub(n.test, "False", "if False")
        elif isinstance(n, (ast.IfExp, ast.While)):
            if not isinstance(n.test, ast.Constant):
                sub(n.test, f"(not ({seg(n.test)}))", "negate")
        elif isinstance(n, ast.Continue):
            sub(n, "break", "continue -> break")
        elif isinstance(n, ast.Break):
            sub(n, "continue", "break -> continue")
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            if n.col_offset > 0 and n.lineno == n.lineno:
                sub(n, "pass", "drop statement: " + ast.unparse(n)[:60])
        elif isinstance(n, ast.Call):
            f = ast.unparse(n.func)
            if f in ("round", "abs", "sorted", "reversed", "deepcopy", "int", "set", "list") and len(n.args) == 1 and not n.keywords:
                sub(n, f"({seg(n.args[0])})", f"drop {f}()")
            elif f in ("min", "max") and len(n.args) == 2:
                sub(n, f"({'max' if f == 'min' else 'min'}({seg(n.args[0])}, {seg(n.args[1])}))", f"swap {f}")
            elif f == "range" and len(n.args) == 1:
                sub(n, f"range(({seg(n.args[0])}) - 1)", "range - 1")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            for part in (n.slice.lower, n.slice.upper):
                if part is not None and not isinstance(part, ast.Constant):
                    sub(part, f"({seg(part)}) + 1", "slice + 1")
    seen = set()
    for line, what, new in res:
        if new != text and new not in seen:
            seen.add(new)
            try:
                compile(new, str(path), "exec")
            except SyntaxError:
                continue
            yield line, what, new


def main():
    work = Path(sys.argv[1])
    args = sys.argv[2:]
    nw = int(args[args.index("--workers") + 1]) if "--workers" in args else 4
    si, sn = map(int, args[args.index("--shard") + 1].split("/")) if "--shard" in args else (0, 1)
    pats = [a for i, a in enumerate(args) if not a.startswith("--") and (i == 0 or not args[i - 1].startswith("--"))]
    cover = {}
    cost = {}
    for f in V.glob("evidence/C*.json"):
        d = json.loads(f.read_text())
        cost[d["property"]] = d["wall_s"]
    for f in work.glob("cov_C*.json"):
        pid = f.stem[4:]
        for src, ls in json.loads(f.read_text()).items():
            for l in ls:
                cover.setdefault((Path(src).relative_to(SRC).as_posix(), l), []).append(pid)
    todo = []
    for path in sorted(SRC.rglob("*.py")):
        rel = path.relative_to(SRC).as_posix()
        if rel == "enum.py" or rel.endswith("typing.py"):
            continue
        if pats and not any(fnmatch.fnmatch(rel, p) for p in pats):
            continue
        for line, what, new in mutants(path):
            h = hashlib.blake2b((rel + new).encode(), digest_size=5).hexdigest()
            if int(h, 16) % sn == si:
                todo.append((rel, line, what, new, h))
    donef = work / "done.jsonl"
    done = {json.loads(x)["h"] for x in donef.read_text().splitlines()} if donef.exists() else set()
    todo = [t for t in todo if t[4] not in done]
    print(len(todo), "mutants", flush=True)
    if "--count" in args:
        return
    todo.sort(key=lambda t: t[4])
    special = {"C17": ("vfb/pens.py", "vfb/glyph.py"), "C03": ("vfb/entry.py", "vfb/header.py", "parsers/header.py", "vfb/vfb.py"),
               "C04": ("vfb/",), "C13": ("parsers/",), "C15": ("vfb/", "parsers/")}
    focus = {
        "compilers/": "C01 C06 C07 C08 C09 C10 C11 C12 C14 C18 C36",
        "parsers/": "C01 C03 C06 C07 C08 C09 C10 C11 C12 C13 C02",
        "vfb/": "C02 C03 C04 C05 C14 C15 C16 C17 C18 C24 C33 C34",
        "ufo/": "C19 C20 C21 C22 C23 C24 C25 C26 C27 C31 C35 C32 C16",
        "tth.py": "C31 C35", "truetype.py": "C09 C22 C27", "json.py": "C29", "diff.py": "C30", "cu2qu.py": "C34", "value.py": "C36",
        "cmdline.py": "C32", "helpers.py": "C28 C36 C01 C07 C06 C27 C29", "templates/": "C17 C34 C10",
    }
    lock = threading.Lock()
    free = []
    for w in range(nw):
        d = work / f"w{w}"
        if d.exists():
            shutil.rmtree(d)
        d.mkdir()
        subprocess.run(["cp", "-a", "/repo", str(d / "repo")], check=True)
        shutil.copytree(V, d / "verif", ignore=shutil.ignore_patterns(".git", "seeded", "replays", "__pycache__"))
        free.append(d)

    def one(t):
        rel, line, what, new, h = t
        with lock:
            d = free.pop()
        try:
            f = d / "repo/src/vfbLib" / rel
            old = f.read_text()
            f.write_text(new)
            res = None
            pids = [p for p in sorted(cover.get((rel, line), []), key=lambda p: cost.get(p, 99))
                    if p not in special or rel.startswith(special[p])]
            for start, ids in focus.items():
                if rel.startswith(start):
                    pids = [p for p in pids if p in ids.split()]
            r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--ignore=Tests/Data", "Tests"], cwd=d / "repo",
                               capture_output=True, text=True, env={**os.environ, "PYTHONPATH": str(d / "repo/src")}, timeout=300)
            tests = r.returncode == 0
            if not tests:
                pids = []
                res = "tests"
            elif not pids:
                res = "uncovered"
            for pid in pids:
                try:
                    r = subprocess.run([str(d / "verif/check.py"), pid], capture_output=True, text=True, timeout=400,
                                       env={**os.environ, "VERIF_REPO": str(d / "repo"), "MC_PROCS": "2", "MC_ENOUGH": "1"})
                except subprocess.TimeoutExpired:
                    res = f"timeout {pid}"
                    break
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    res = pid
                    break
                if r.returncode:
                    res = f"exit {r.returncode} {pid}"
                    break
            tests = tests and (res is None or res == "uncovered" or res.startswith(("timeout", "exit")))
            f.write_text(old)
            srcline = old.splitlines()[line - 1].strip()
            with lock:
                with open(donef, "a") as o:
                    o.write(json.dumps(dict(h=h, rel=rel, line=line, what=what, res=res, tests=tests)) + "\n")
                if tests:
                    with open(work / "survivors.txt", "a") as o:
                        o.write(f"{rel}:{line}: {what} [{res or 'missed by ' + ' '.join(pids)}] | {srcline}\n")
        finally:
            with lock:
                free.append(d)

    with cf.ThreadPoolExecutor(nw) as ex:
        list(ex.map(one, todo))


if __name__ == "__main__":
    main()
