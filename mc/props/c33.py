"""Reading options: dropped records, only the header, minimal conversion."""
from io import BytesIO
from itertools import combinations, product

from mc import ref as R
from mc import ufo as U
from mc.core import DATA, first_diff, samples, short
from mc.flat import changed, flat
from mc.props.c29 import entries_of
from mc.rich import SECTIONS, rich

PID = "C33"
RULE = (
    "all sets of up to the stated number of dropped record types for fonts with a bit of everything, read, written and converted; "
    "all sets of up to the stated number of left out sections converted in minimal mode with all options; all sample fonts; "
    "a state is a font read or converted with options"
)
BOUNDS = {
    "quick": "all single record types and all pairs for reading (3 fonts), all single types for conversion; sections left out singly and in pairs (1 master) x 4 option sets in minimal mode",
    "thorough": "all pairs of record types for conversion, all triples for reading (1 font); sections left out in pairs (3 fonts) and triples (1 master) x 16 option sets",
}
CHUNK = 1
CASE_LIMIT = 400
# what minimal mode leaves out
MINIMAL_IDS = {1294, 1295, 2025, 2013, 2031, 2007, 2012, 2009, 2017}
MINIMAL = ("guides", "mask", "images", "mark", "note")
FONTS = {"m1": (1, "macos"), "m2w": (2, "windows"), "m4": (4, "macos")}


def data_of(f, skip=()):
    m, p = FONTS[f]
    return rich(m, skip, platform=p)


def ids_of(data):
    return sorted({i for i, _ in entries_of(data)})


def cases(tier):
    q = tier == "quick"
    for f in FONTS:
        ids = ids_of(data_of(f))
        yield "drop", [f, []]
        for i in ids:
            yield "drop", [f, [i]]
            yield "ufo", [f, [i], q]
        if not q and f == "m1":
            for a in combinations(ids, 2):
                yield "drop", [f, list(a)]
        yield "header", f
        yield "late", f
    for f in FONTS if not q else ("m1",):
        for s in SECTIONS:
            yield "minimal", [f, [s], q]
    if not q:
        for s in combinations(SECTIONS, 2):
            yield "minimal", ["m1", list(s), q]
    for f in FONTS:
        yield "minimal", [f, [], q]
    for name, size in samples():
        if not q or size < 200000:
            yield "fixture", name


def without(data, ids):
    """The file without those records"""
    start = int.from_bytes(data[8:12], "little")
    return data[:start] + b"".join(R.entry(i, b) for i, b in entries_of(data) if i not in ids)


def check_drop(data, ids, out, what):
    full = U.read(data)
    v = U.read(data, drop_keys=set(ids))
    if [e.id for e in v.entries] != [i for i, _ in entries_of(data) if i not in ids]:
        out.fail("drop/records", f"{what}: {[e.id for e in v.entries]}")
        return
    want = [e for e in full.entries if e.id not in ids]
    for a, b in zip(v.entries, want):
        if a.data != b.data:
            out.fail("drop/content", f"{what}: record {a.id}: {short(first_diff(a.data, b.data))}")
    out.eq(v.num_masters, full.num_masters, "drop/masters", what)
    out.eq(v.writer_platform, full.writer_platform, "drop/platform", what)
    for dec in (True, False):
        v = U.read(data, decompile=dec, drop_keys=set(ids))
        w = U.read(without(data, ()), decompile=dec)
        b, c = BytesIO(), BytesIO()
        v.write_bytes(b)
        w.write_bytes(c)
        if b.getvalue() != without(c.getvalue(), ids):
            out.fail("drop/written", f"{what}: written file differs, decompiled: {dec}")
    # what follows the end marker is no part of the font, also if that is dropped
    v = U.read(data + R.entry(1026, b"behind the end") + b"\1\2", decompile=False, drop_keys=set(ids))
    if [e.id for e in v.entries] != [i for i, _ in entries_of(data) if i not in ids]:
        out.fail("drop/end", f"{what}: {[e.id for e in v.entries][-5:]} are the last records")
    out.state(what)
    out.trans(4)


def run_drop(payload, out):
    f, head = payload
    data = data_of(f)
    ids = ids_of(data)
    if not head:
        check_drop(data, [], out, f)
        check_drop(data, [0, 999, 0x8001], out, f"{f} unknown types")
        check_drop(data, ids, out, f"{f} all types")
    else:
        for i in ids:
            if i >= head[-1]:
                d = sorted({*head, i})
                out.case = ("drop1", [f, d])
                check_drop(data, d, out, f"{f} without {d}")
    out.trace()


def run_drop1(payload, out):
    f, d = payload
    check_drop(data_of(f), d, out, f"{f} without {d}")
    out.trace()


def conv(data, out, what, **kw):
    """Converted font, or the error"""
    try:
        ufos, ds = U.convert(data, **kw)
    except Exception as e:
        return f"{type(e).__name__}: {e}"
    return [flat(u) for u in ufos], ds.tostring().decode() if ds else None


def compare(a, b, out, fp, what):
    if a == b:
        return
    if isinstance(a, str) or isinstance(b, str):
        if isinstance(a, str) and isinstance(b, str):
            # both fail
            return
        out.fail(f"{fp}/error", f"{what}: {short(a)} instead of {short(b)}")
        return
    if len(a[0]) != len(b[0]):
        out.fail(f"{fp}/masters", f"{what}: {len(a[0])} and {len(b[0])} masters")
    for i, (x, y) in enumerate(zip(a[0], b[0])):
        d = changed(x, y)
        if d:
            k = sorted(d)[0].split(" > ")[0].split("/")[-1].split(" ")[-1]
            out.fail(f"{fp}/{k}", f"{what}: master {i}: {short(d)}")
    if a[1] != b[1]:
        out.fail(f"{fp}/designspace", f"{what}: {a[1]} and {b[1]}")


# Records that are interpreted while reading, also if they are dropped
SIDE = {10, 1503, 1269}


def run_ufo(payload, out):
    """Converting without some records is converting a file without them"""
    f, head, single = payload
    data = data_of(f)
    for i in [head[0]] if single else ids_of(data):
        if i < head[0]:
            continue
        ids = {*head, i}
        if ids & SIDE:
            continue
        out.case = ("ufo1", [f, sorted(ids)])
        ufo1(f, data, ids, out)
    out.trace()


def ufo1(f, data, ids, out):
    for minimal in (False, True):
        what = f"{f} without {sorted(ids)}{', minimal' if minimal else ''}"
        compare(conv(data, out, what, drop=set(ids), minimal=minimal), conv(without(data, ids), out, what, minimal=minimal), out, "ufo", what)
        out.state(what)
        out.trans()


def run_ufo1(payload, out):
    ufo1(payload[0], data_of(payload[0]), set(payload[1]), out)
    out.trace()


OPTS = [dict(zip(("base64", "add_kerning_groups", "move_groups", "pshints"), v)) for v in product((False, True), repeat=4)]


def run_minimal(payload, out):
    f, head, q = payload
    for s in SECTIONS:
        if head and SECTIONS.index(s) < SECTIONS.index(head[-1]):
            continue
        skip = {*head, s} if head else set()
        for k, opts in enumerate(OPTS):
            if q and k % 5:
                continue
            out.case = ("minimal1", [f, sorted(skip), k])
            minimal1(f, skip, opts, out)
        if not head:
            break
    out.trace()


def minimal1(f, skip, opts, out):
    what = f"{f} minimal without {sorted(skip)} {opts}"
    data = data_of(f, skip)
    got = conv(data, out, what, minimal=True, **opts)
    want = conv(data_of(f, {*skip, *MINIMAL}), out, what, **opts)
    if not isinstance(want, str) and not isinstance(got, str):
        # in minimal mode, groups contain only existing glyphs
        for u in want[0]:
            u["groups"] = {k: [g for g in v if g != "missing"] for k, v in u["groups"].items()}
            u["features"] = u["features"].replace(" missing]", "]")
    compare(got, want, out, "minimal", what)
    # ... and dropping what it ignores makes no difference
    compare(conv(without(data, MINIMAL_IDS), out, what, minimal=True, **opts), got, out, "minimal/dropped", what)
    out.state(what)
    out.trans(2)


def run_minimal1(payload, out):
    f, skip, k = payload
    minimal1(f, set(skip), OPTS[k], out)
    out.trace()


def run_header(f, out):
    from vfbLib.vfb.vfb import Vfb

    data = data_of(f)
    start = int.from_bytes(data[8:12], "little")
    for tail in (data[start:], b"", b"\xff", data[start:-5]):
        v = Vfb(timing=False, only_header=True)
        v.read_bytes(BytesIO(data[:start] + tail))
        w = U.read(data, decompile=False)
        out.eq(v.as_dict()["header"], w.as_dict()["header"], "header/content", f)
        out.eq([e.id for e in v.entries], [], "header/entries", f)
        b = BytesIO()
        v.decompile()
        v.write_bytes(b)
        out.eq(b.getvalue(), data[:start], "header/written", f)
        out.state(f"{f}{len(tail)}")
        out.trans()
    out.trace()


def run_fixture(name, out):
    data = (DATA / name).read_bytes()
    out.case = ("fixture", name)
    ids = ids_of(data)
    for i in ids:
        check_drop(data, [i], out, f"{name} without {i}")
    # minimal mode ignores those records
    for opts in (OPTS[0], OPTS[-1]):
        compare(conv(without(data, MINIMAL_IDS), out, name, minimal=True, **opts), conv(data, out, name, minimal=True, **opts), out, "minimal/dropped", name)
        compare(conv(data, out, name, minimal=True, drop=set(MINIMAL_IDS), **opts), conv(data, out, name, minimal=True, **opts), out, "minimal/dropped", name)
    out.trace()


def run_late(f, out):
    """Records types which are dropped after reading are not interpreted"""
    data = data_of(f)
    ids = ids_of(data)
    for sel in [(i,) for i in ids] + list(combinations(ids[:: max(1, len(ids) // 12)], 2)) + [tuple(ids)]:
        what = f"{f}, {sel} dropped after reading"
        out.state(what)
        v = U.read(data, decompile=False)
        before = [e.data for e in v.entries]
        v.drop_keys = set(sel)
        v.decompile()
        w = U.read(data, decompile=True)
        for e, b, x in zip(v.entries, before, w.entries):
            if e.data != (b if e.id in sel else x.data):
                out.fail("late", f"{what}: record {e.id}: {short(e.data)}")
                break
        b = BytesIO()
        v.write_bytes(b)
        c = BytesIO()
        w.write_bytes(c)
        if U.read(b.getvalue()).as_dict() != U.read(c.getvalue()).as_dict():
            out.fail("late/written", f"{what}: the file differs")
        out.trans(2)
    out.trace()


KINDS = {
    "late": run_late, "drop": run_drop, "drop1": run_drop1, "ufo": run_ufo, "ufo1": run_ufo1, "minimal": run_minimal,
    "minimal1": run_minimal1, "header": run_header, "fixture": run_fixture,
}  # fmt: skip
