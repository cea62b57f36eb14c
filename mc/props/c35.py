"""Using a font (converting, drawing, exporting) does not change it: all
sequences of operations give what each operation gives on a fresh font, and the
font afterwards is the one that was read."""
import json
from copy import deepcopy
from io import BytesIO
from itertools import product

import orjson

from mc import ref as R
from mc import ufo as U
from mc.codec import gl
from mc.core import DATA, first_diff, samples, short
from mc.flat import changed, flat
from mc.rich import SECTIONS, rich

PID = "C35"
RULE = (
    "all sequences of operations (conversions with options, drawing, structure export, writing, compiling) up to the stated length on "
    "fonts with a bit of everything, 1, 2 and 4 masters, with sections left out, and on all sample fonts; a state is a font after a sequence"
)
BOUNDS = {
    "quick": "12 operations, all pairs on 3 fonts and a font without each of 19 sections; all triples on 1 font; all operations twice in two orders on all sample fonts (once on large ones)",
    "thorough": "all triples on 8 fonts; all pairs on fonts without each of 19 sections with 1 and 2 masters; all pairs on all sample fonts",
}
ASSUMPTIONS = ["what each operation gives on a fresh font is checked by the other properties"]
CHUNK = 1
CASE_LIMIT = 400


def conv(**opts):
    minimal = opts.pop("minimal", False)

    def f(v):
        from pathlib import Path

        from vfbLib.ufo.builder import VfbToUfoBuilder

        b = VfbToUfoBuilder(v, minimal=minimal, **opts)
        ufos, ds = b.get_ufos_designspace(Path("/nowhere/font.ufo"), silent=True)
        return [flat(u) for u in ufos], ds.tostring().decode() if ds else None

    return f


def twice(v):
    """Masters of one builder, several times"""
    from vfbLib.ufo.builder import VfbToUfoBuilder

    b = VfbToUfoBuilder(v)
    a = [flat(u) for u in b.get_ufo_masters(silent=True)]
    return a, [flat(u) for u in b.get_ufo_masters(silent=True)]


def draw(v):
    from fontTools.pens.recordingPen import RecordingPen, RecordingPointPen

    res = []
    for i, m in enumerate(v.get_masters() if v.num_masters > 1 else [v]):
        for n in list(v.keys()):
            p, q = RecordingPen(), RecordingPointPen()
            g = m[n]
            if hasattr(g, "draw"):
                g.draw(p)
            g.drawPoints(q)
            res.append((i, n, repr(p.value), repr(q.value)))
    return res


def tth(v):
    from vfbLib.tth import extract_truetype_hinting

    return json.loads(orjson.dumps(extract_truetype_hinting(v), option=orjson.OPT_NON_STR_KEYS))


def as_json(v):
    return json.loads(orjson.dumps([e.as_dict() for e in v.entries], option=orjson.OPT_NON_STR_KEYS))


def write(v):
    b = BytesIO()
    v.write_bytes(b)
    # (writing leaves the records compiled)
    v.decompile()
    return b.getvalue()


def recompile(v):
    v.compile()
    v.decompile()
    return as_json(v)


OPS = {
    "ufo": conv(),
    "minimal": conv(minimal=True),
    "nops": conv(pshints=False),
    "base64": conv(base64=True, add_kerning_groups=True),
    "groups": conv(move_groups=False),
    "twice": twice,
    "draw": draw,
    "tth": tth,
    "json": as_json,
    "write": write,
    "recompile": recompile,
    "info": lambda v: (list(v.keys()), [getattr(v.info, "unitsPerEm", None)], list(v.glyph_order), v.num_masters, [n in v for n in ("A", "comp", "?")]),
}

FONTS = {
    "rich1": lambda: rich(1),
    "rich2": lambda: rich(2),
    "rich4": lambda: rich(4),
    "win": lambda: rich(1, platform="windows"),
    "empty": lambda: U.font([]),
    "bare": lambda: U.font([gl(name="A")]),
    "nohints": lambda: rich(2, ("hints", "tt")),
    "nomm": lambda: rich(4, ("instances", "dup", "kern")),
}


def cases(tier):
    q = tier == "quick"
    for f in ("rich1", "rich2", "rich4", "win", "empty", "bare"):
        for a in OPS:
            yield "seqs", [f, None, [a], 2]
    for a in OPS:
        for f in ("rich2",) if q else FONTS:
            yield "seqs", [f, None, [a], 3]
    for f in FONTS:
        for opts in ({}, dict(pshints=False), dict(base64=True), dict(add_kerning_groups=True), dict(move_groups=False), dict(minimal=True)):
            yield "edited", [f, None, opts]
    for s in SECTIONS:
        for m in (1, 2, 4):
            yield "edited", [f"rich{m}", s, {}]
    for s in SECTIONS:
        for m in (1,) if q else (1, 2):
            for a in (None,) if q else OPS:
                yield "seqs", [f"rich{m}", s, [a] if a else [], 2]
    for name, _ in samples():
        if q:
            yield "fixture", [name, None]
        else:
            for a in OPS:
                yield "fixture", [name, a]


def get(fontname, skip):
    if skip:
        return rich(int(fontname[-1]), (skip,))
    return FONTS[fontname]()


FRESH = {}


def ident(data):
    import hashlib

    return hashlib.sha1(data).hexdigest()


def fresh(data, op):
    key = ident(data), op
    if key not in FRESH:
        if len(FRESH) > 60:
            FRESH.clear()
        v = U.read(data)
        before = deepcopy(v.as_dict())
        try:
            FRESH[key] = OPS[op](v), before, None
        except Exception as e:
            FRESH[key] = None, before, f"{type(e).__name__}: {e}"
    return FRESH[key]


def snapshot(v):
    return [(e.id, e.data) for e in v.entries]


def sequence(data, seq, out, what):
    v = U.read(data)
    start = deepcopy(snapshot(v))
    for i, op in enumerate(seq):
        want, _, err = fresh(data, op)
        try:
            got = OPS[op](v)
        except Exception as e:
            out.fail(f"{op}/raised", f"{what} {seq[: i + 1]}: {type(e).__name__}: {e} (at first: {err or 'worked'})")
            return
        if err:
            out.fail(f"{op}/fresh", f"{what} {op}: {err}")
            return
        if got != want:
            out.fail(f"{op}/differs", f"{what}: after {seq[:i]}, {op} gives something else: {describe(got, want)}")
        now = snapshot(v)
        if now != start:
            for (eid, a), (_, b) in zip(start, now):
                if a != b:
                    out.fail(f"{op}/changed/{eid}", f"{what} {seq[: i + 1]}: record {eid} was changed by {op}: {short(first_diff(b, a))}")
                    return
            out.fail(f"{op}/records", f"{what} {seq[: i + 1]}: {len(start)} and {len(now)} records")
            return
        out.trans()
    # What the font is written as afterwards
    if write(v) != fresh(data, "write")[0]:
        out.fail("written", f"{what} {seq}: the written font differs")
    out.state(f"{what}{seq}")


def describe(got, want):
    if isinstance(got, tuple) and got and isinstance(got[0], list) and got[0] and isinstance(got[0][0], dict):
        for g, w in zip(got[0], want[0]):
            if g != w:
                return short(changed(g, w))
        return short((got[1], want[1]))
    return short(first_diff(got, want))


def run_seqs(payload, out):
    f, skip, head, n = payload
    data = get(f, skip)
    for tail in product(OPS, repeat=n - len(head)):
        seq = [*head, *tail]
        out.case = ("one", [f, skip, seq])
        sequence(data, seq, out, f"{f} without {skip}")
    out.trace()


def run_one(payload, out):
    f, skip, seq = payload
    sequence(get(f, skip), seq, out, f"{f} without {skip}")
    out.trace()


def run_fixture(payload, out):
    name, a = payload
    out.case = ("fixture", payload)
    data = (DATA / name).read_bytes()
    if a is None:
        # every operation after every other one, not each time from the start
        ops = list(OPS)
        if len(data) > 200000:
            sequence(data, [*ops[::-1], "draw", "minimal"], out, name)
            return
        sequence(data, ops + ops, out, name)
        sequence(data, ops[::-1] + ops, out, name)
    else:
        for b in OPS:
            sequence(data, [a, b], out, name)
    out.trace()


def spoil(o, seen):
    """Change everything that can be changed in place"""
    if id(o) in seen or o is None or isinstance(o, (str, bytes, int, float, frozenset)):
        return
    seen[id(o)] = o
    if isinstance(o, tuple):
        for x in o:
            spoil(x, seen)
    elif isinstance(o, list):
        for x in list(o):
            spoil(x, seen)
        o.append(o[0] if o else "spoiled")
    elif isinstance(o, dict):
        for x in list(o.values()):
            spoil(x, seen)
        o["spoiled"] = 1
    elif hasattr(o, "__attrs_attrs__"):
        for a in o.__attrs_attrs__:
            x = getattr(o, a.name, None)
            if isinstance(x, (int, float)) and not isinstance(x, bool):
                try:
                    setattr(o, a.name.lstrip("_"), x + 1)
                except Exception:  # the object doesn't allow the value
                    pass
            else:
                spoil(x, seen)


def run_edited(payload, out):
    """Editing one result changes neither the font nor the other results"""
    from pathlib import Path

    from vfbLib.tth import extract_truetype_hinting
    from vfbLib.ufo.builder import VfbToUfoBuilder

    f, skip, opts = payload
    data = get(f, skip)
    v = U.read(data)
    start = deepcopy(snapshot(v))
    what = f"{f} without {skip}, {opts}"

    def unchanged(by):
        now = snapshot(v)
        for (eid, a), (_, b) in zip(start, now):
            if a != b:
                out.fail(f"edited/record/{eid}", f"{what}: record {eid} is changed by editing {by}: {short(first_diff(b, a))}")
                return
        out.trans()

    b = VfbToUfoBuilder(v, **opts)
    ufos, ds = b.get_ufos_designspace(Path("/nowhere/font.ufo"), silent=True)
    want = [flat(u) for u in ufos]
    for k, u in enumerate(ufos):
        out.state(f"{what} {k}")
        seen = {}
        spoil(dict(u.lib), seen)
        spoil(dict(u.groups), seen)
        for o in (u.info, u.kerning, u.lib, u.groups, u.features):
            spoil(o if not hasattr(o, "_data") else o._data, seen)
        for layer in u.layers:
            for g in layer:
                for o in (dict(g.lib), g.anchors, g.guidelines, g.contours, g.components, g.unicodes):
                    spoil(o, seen)
        if len(seen) < 10:
            out.fail("edited/nothing", f"{what}: nothing was edited")
        unchanged(f"master {k}")
        for i, other in enumerate(ufos[k + 1 :], k + 1):
            if flat(other) != want[i]:
                out.fail("edited/masters", f"{what}: master {i} is changed by editing master {k}: {short(changed(flat(other), want[i]))}")
    again = [flat(u) for u in b.get_ufo_masters(silent=True)]
    if again != want:
        out.fail("edited/builder", f"{what}: edits of the masters show up in later ones: {describe((again, None), (want, None))}")
    want = tth(v)
    spoil(extract_truetype_hinting(v), {})
    unchanged("the TrueType hinting")
    out.eq(tth(v), want, "edited/tth", what)
    out.trace()


KINDS = {"edited": run_edited, "seqs": run_seqs, "one": run_one, "fixture": run_fixture}
