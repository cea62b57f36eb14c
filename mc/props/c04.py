"""Untouched data is preserved: whatever subset of records is looked at, all
others come out byte for byte, and those looked at keep their meaning."""
from io import BytesIO
from itertools import combinations

from mc import codec
from mc import ref as R
from mc.core import DATA, norm, short
from mc.props.c03 import SMALL

PID = "C04"
RULE = (
    "for each sample file: every single record looked at (and every pair for the small "
    "synthetic file: every subset), every read-only operation; a state is a (file, set of "
    "records looked at, operation)"
)
BOUNDS = {
    "quick": "25 small sample files, each record alone, 8 whole-file operations; all subsets of 10 records (non-canonical payloads)",
    "thorough": "all 32 sample files",
}
CHUNK = 1
CASE_LIMIT = 400
ALL = SMALL + ["ComicJensPro-Regular", "ComicJensPro-Regular3.000", "IBMPlexSans-Medium",
               "IBMPlexSerif-Text", "IBMPlexSerif-TextItalic", "imported_glyph",
               "ComicJensPro-Regular3.000.ttf"]  # fmt: skip
EXTRA = [1, 2, 3]


def synthetic():
    """Records whose payload is valid, but not what the writer would write."""
    g = codec.gl(nodes=[codec.node("move", 0, [[(1, 2)]])])
    ents = [
        (1026, b"\0Name\0\0", "Name"),
        (1068, R.num_long(2) + R.num_long(5) + R.num_long(-7), [5, -7]),
        (1262, b"\x01\x02", "0102"),
        (999, b"\xff\x00", "ff00"),
        (1276, b"feature liga {\r\n\r\n\r\n\r\n} liga;\r\n\r\n",
         ["feature liga {", "", "", "} liga;", ""]),
        (1743, b"\x01\x8c\x26\x8b\x26\x8c\x64", {"fit_ascender": 1, "export_ot": 0}),
        (2001, R.glyph(g, order=lambda p: [b"\x03\x8b\x8b\x8b"] + p), R.glyph_view(g)),
        (2007, codec.image([1, 1, 1, 1], 16, 2, "macos", rle=b"\x03\x01\x01\x01\x01")[1],
         codec.image([1, 1, 1, 1], 16, 2, "macos")[0]),
        (1273, R.num(2) + R.nums([5, 10, 8, 1, 9, -8]), {5: {10: 8}, 1: {9: -8}}),
        (1138, R.num(1) + R.num_long(1) + R.nums([3, 1, 1033]) + R.num_long(1) + R.num_long(65),
         [(1, 3, 1, 1033, "A")]),
    ]  # fmt: skip
    ents[5] = (1743, b"\x01\x8c\x03\x8b\x03\x8c\x64", {"fit_ascender": 1, "auto_metrics_left": 1})
    return ents


def load(name):
    from vfbLib.vfb.vfb import Vfb

    b = (DATA / f"{name}.vfb").read_bytes()
    v = Vfb(timing=False)
    v.read_bytes(BytesIO(b))
    return v, R.parse_file(b)


def compare(v, ref, touched, out, what, replay):
    """Save, and compare with the original entry by entry."""
    from vfbLib.vfb.vfb import Vfb

    head, entries = ref
    w = BytesIO()
    v.write_bytes(w)
    out.trans()
    head2, entries2 = R.parse_file(w.getvalue())
    if head2 != head:
        out.fail("header", f"{what}: header {head2}, was {head}", replay)
    if [e for e, _ in entries2] != [e for e, _ in entries]:
        out.fail("entries", f"{what}: the saved file has other entries", replay)
        return
    other = []
    for i, ((eid, a), (_, b)) in enumerate(zip(entries, entries2)):
        if a == b:
            continue
        if i in touched:
            other.append(i)
        else:
            out.fail("untouched", f"{what}: entry {i} (ID {eid}) was not touched, but its bytes "
                     f"changed from {short(a.hex(), 120)} to {short(b.hex(), 120)}", replay)  # fmt: skip
            return
    if other:
        # Records that were looked at may be encoded differently, but must mean the same
        va, vb = Vfb(timing=False), Vfb(timing=False)
        va.read_bytes(BytesIO(R.write_file(head, entries)))
        vb.read_bytes(BytesIO(w.getvalue()))
        for i in other:
            x, y = va.entries[i], vb.entries[i]
            x.decompile()
            y.decompile()
            if norm(x.data) != norm(y.data):
                out.fail("meaning", f"{what}: entry {i} (ID {x.id}) was only looked at, but means "
                         f"{short(y.data, 200)} instead of {short(x.data, 200)}", replay)  # fmt: skip
                return
    out.trace()


def op_none(v):
    return ()


def op_keys(v):
    list(v.keys())
    for k, g in v.items():
        k in v
        g.width if hasattr(g, "width") else None
    return (2001, 2008, 2010, 1093)


def op_draw(v):
    from fontTools.pens.recordingPen import RecordingPen, RecordingPointPen

    for k in v.keys():
        for m in v.get_masters():
            for pen, fn in ((RecordingPen(), "draw"), (RecordingPointPen(), "drawPoints")):
                try:
                    getattr(m[k], fn)(pen)
                except Exception:
                    pass
    return (2001, 2008, 2010, 1093)


def op_dict(v):
    v.as_dict()
    return ()


def op_json(v):
    v.decompile()
    v.as_dict()
    return "all"


def op_twice(v):
    v.decompile()
    v.compile()
    v.decompile()
    return "all"


def op_raw(v):
    for e in v.entries:
        e.size if isinstance(e.data, bytes) else None
        repr(e)
    return ()


OPS = dict(none=op_none, keys=op_keys, draw=op_draw, dict=op_dict, json=op_json, twice=op_twice,
           raw=op_raw)  # fmt: skip


def whole(payload, out):
    name, op = payload
    v, ref = load(name)
    ids = OPS[op](v)
    touched = (
        range(len(v.entries))
        if ids == "all"
        else [i for i, e in enumerate(v.entries) if e.id in ids or e.id in (10, 1503, 1269)]
    )
    out.state(f"{name}/{op}")
    compare(v, ref, set(touched), out, f"{name}.vfb, operation {op}", ("whole", payload))


def single(payload, out):
    """Look at one record, save, repeatedly for all records in the range."""
    name, lo, hi = payload
    v, ref = load(name)
    touched = {i for i, e in enumerate(v.entries) if e.id in (10, 1503, 1269)}
    for i in range(lo, min(hi, len(v.entries))):
        raw = v.entries[i].data
        v.entries[i].decompile()
        out.state(f"{name}/{i}")
        compare(v, ref, touched | {i}, out, f"{name}.vfb, entry {i} decompiled", ("single", [name, i, i + 1]))
        v.entries[i].data = raw
        if out.fails:
            return


def subsets(payload, out):
    (k,) = payload
    from vfbLib.vfb.vfb import Vfb

    ents = synthetic()
    src = R.vfb_file([e[:2] for e in ents])
    for sel in combinations(range(len(ents)), k):
        v = Vfb(timing=False)
        v.read_bytes(BytesIO(src))
        for i in sel:
            e = v.entries[i + 2]
            e.decompile()
            out.trans()
            if norm(e.data) != norm(ents[i][2]):
                out.fail("synthetic", f"entry {ents[i][0]} {ents[i][1].hex()}: {short(e.data)}, expected {short(ents[i][2])}")
                return
        out.state(repr(sel))
        compare(v, R.parse_file(src), {i + 2 for i in sel}, out, f"records {[ents[i][0] for i in sel]} decompiled", ("subsets", payload))


KINDS = dict(whole=whole, single=single, subsets=subsets)


def cases(tier):
    names = SMALL if tier == "quick" else ALL
    for name in names:
        for op in OPS:
            yield "whole", [name, op]
    for name in SMALL:
        n = len(load(name)[0].entries)
        for lo in range(0, n, 40):
            yield "single", [name, lo, lo + 40]
    for k in range(len(synthetic()) + 1):
        yield "subsets", [k]
    if tier == "thorough":
        for name in ALL[len(SMALL) :]:
            n = len(load(name)[0].entries)
            for lo in range(0, n, 20):
                yield "single", [name, lo, lo + 1]
