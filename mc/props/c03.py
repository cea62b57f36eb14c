"""Damaged containers: every truncation and every single-byte change of small
files.  The reference framing decides what the file contains, or that it is
damaged; the implementation must agree or refuse, and never invent data."""
from io import BytesIO

from mc import ref as R
from mc.core import DATA, samples

PID = "C03"
RULE = (
    "every prefix of every file, and every single-byte change (to every value for the "
    "synthetic file and every header/size field); a state is a damaged file"
)
BOUNDS = {
    "quick": "all prefixes of 25 sample files; all single-byte changes of one synthetic file of 9 entries to all 256 values",
    "thorough": "also all single-byte changes of the small sample files to 8 values, all pairs of framing bytes of the synthetic file",
}
CHUNK = 2
CASE_LIMIT = 60
SMALL = ["BinaryImport", "FontNames", "closepath", "cu2qu", "cu2qu_2m", "empty_504",
         "empty_522", "globalmask", "hintrep", "image", "mask", "masters", "mm_anchors",
         "open_paths", "sketch", "test", "truetype_stems"]  # fmt: skip
SMALL += [n[:-4] for n, _ in samples() if n.startswith("..")]
SPECIAL = (R.FLVERSION, R.MASTERCOUNT, R.STEM_ID)


def synthetic():
    return R.vfb_file(
        [
            (1026, b"Name"),
            (1, b""),
            (1262, bytes(range(40))),
            (1410, R.u32(1) + R.u32(2) + R.i16(-5) + R.i16(7)),
            (2001, R.glyph({"num_masters": 2, "name": "a", "metrics": [(1, 2), (3, 4)]})),
        ],
        masters=2,
        stems={"ttStemsV": [{"value": 80, "name": "v", "round": {6: 5}}], "ttStemsH": []},
    )


def sample(name):
    return synthetic() if name == "@" else (DATA / f"{name}.vfb").read_bytes()


def judge(b, out, what, replay, prefix=None):
    """prefix: the (id, data) list of the undamaged file, if b is cut off it."""
    from vfbLib.vfb.vfb import Vfb

    out.trans()
    v = Vfb(timing=False)
    try:
        v.read_bytes(BytesIO(b))
    except Exception:
        v = None
    try:
        head, entries = R.parse_file(b)
    except R.Damaged as d:
        if v is not None:
            out.fail(f"accepted/{d}", f"{what}: accepted, although the {d} is damaged; "
                     f"read {len(v.entries)} entries", replay)  # fmt: skip
        return
    if v is None:
        # Entries that are decoded while reading may be damaged inside
        if prefix is not None:
            out.fail("refused", f"{what}: refused, although it ends at an entry boundary", replay)
        return
    got = [(e.id, e.data) for e in v.entries]
    if [g[0] for g in got] != [e[0] for e in entries] or any(
        g[1] != e[1] for g, e in zip(got, entries) if g[0] not in SPECIAL
    ):
        out.fail("invented", f"{what}: entries {[(i, len(d)) for i, d in entries]}, read {[g[0] for g in got]}", replay)
    out.trace()


def cut(payload, out):
    name, lo, hi = payload
    b = sample(name)
    _, entries = R.parse_file(b)
    for n in range(lo, min(hi, len(b))):
        out.state(f"{name}/{n}")
        judge(b[:n], out, f"{name} cut to {n} of {len(b)} bytes", ("cut", [name, n, n + 1]), entries)


def flip(payload, out):
    name, lo, hi, values = payload
    b = sample(name)
    vals = range(256) if values == "all" else [int(x) for x in values]
    for i in range(lo, min(hi, len(b))):
        for x in vals:
            if values != "all":
                x = (b[i] + x) & 255
            if x == b[i]:
                continue
            out.state(f"{name}/{i}/{x}")
            judge(b[:i] + bytes([x]) + b[i + 1 :], out, f"{name} byte {i} changed to {x}",
                  ("one", [name, i, x]))  # fmt: skip


def one(payload, out):
    name, i, x = payload
    b = sample(name)
    judge(b[:i] + bytes([x]) + b[i + 1 :], out, f"{name} byte {i} changed to {x}", ("one", payload))


def framing_bytes(b):
    res = list(range(12))
    i = struct_off = int.from_bytes(b[8:12], "little")
    while i < len(b):
        raw = int.from_bytes(b[i : i + 2], "little")
        w = 4 if raw & 0x8000 else 2
        res += range(i, i + 2 + w)
        i += 2 + w + int.from_bytes(b[i + 2 : i + 2 + w], "little")
    return res


def pairs(payload, out):
    (i,) = payload
    b = synthetic()
    for j in framing_bytes(b):
        if j <= i:
            continue
        for x in (0, 1, 0x7F, 0x80, 0xFF):
            for y in (0, 1, 0x7F, 0x80, 0xFF):
                d = bytearray(b)
                d[i] = x
                d[j] = y
                out.state(bytes(d))
                judge(bytes(d), out, f"synthetic file, bytes {i}, {j} changed to {x}, {y}",
                      ("two", [i, x, j, y]))  # fmt: skip


def two(payload, out):
    i, x, j, y = payload
    d = bytearray(synthetic())
    d[i] = x
    d[j] = y
    judge(bytes(d), out, f"synthetic file, bytes {i}, {j} changed to {x}, {y}", ("two", payload))


def onfile(payload, out):
    """The same through a file; and a refused file leaves no half-read object
    that pretends to be complete."""
    import os
    import tempfile
    from pathlib import Path

    from vfbLib.vfb.vfb import Vfb

    b = synthetic()
    with tempfile.TemporaryDirectory() as tmp:
        p = Path(tmp) / "a.vfb"
        for n in range(0, len(b)):
            p.write_bytes(b[:n])
            try:
                R.parse_file(b[:n])
                ok = True
            except R.Damaged:
                ok = False
            try:
                Vfb(p, timing=False)
                got = True
            except Exception:
                got = False
            if got != ok:
                out.fail("file", f"file cut to {n} bytes: accepted {got}, expected {ok}")
            out.state(f"file/{n}")
            out.trans()
    assert not os.path.exists(tmp)


KINDS = dict(cut=cut, flip=flip, one=one, pairs=pairs, two=two, onfile=onfile)


def cases(tier):
    for name in ["@"] + SMALL:
        n = len(sample(name))
        for lo in range(0, n, 500):
            yield "cut", [name, lo, lo + 500]
    n = len(synthetic())
    for lo in range(0, n, 4):
        yield "flip", ["@", lo, lo + 4, "all"]
    for i in framing_bytes(synthetic()) if tier == "thorough" else framing_bytes(synthetic())[7:40]:
        yield "pairs", [i]
    yield "onfile", []
    if tier == "thorough":
        for name in SMALL:
            n = len(sample(name))
            for lo in range(0, n, 100):
                yield "flip", [name, lo, lo + 100, [1, 255, 128, 64, 2, 8, 16, 32]]
