"""Building small VFB files and converting them to UFO, for the UFO checks."""
from __future__ import annotations

from io import BytesIO
from pathlib import Path

from mc import ref as R
from mc.codec import PSBASE, gl, guide_props, node, psinfo  # noqa: F401

# record IDs
BLUE_NUM = dict(blue_values=1530, other_blues=1531, family_blues=1532,
                family_other_blues=1533, stem_snap_h=1534, stem_snap_v=1535)  # fmt: skip


def s(eid, text):
    return (eid, R.untext(text))


def u(eid, v):
    return (eid, R.u16(v))


def psrec(**kw):
    return (1536, psinfo(dict(PSBASE, **kw)))


def axes_records(names, locations, mappings=None, instances=None):
    """MM records: axis names, per-master locations (tuples of 4)"""
    recs = [(1513, R.u16(len(names)))]
    for n in names:
        recs.append(s(1514, n))
    if mappings is not None:
        counts = [len(m) for m in mappings] + [0] * (4 - len(mappings))
        recs.append((1515, b"".join(map(R.u32, counts))))
        flat = []
        for m in mappings:
            flat += list(m) + [(7.0, 0.7)] * (10 - len(m))
        recs.append((1516, b"".join(R.dbl(*p) for p in flat)))
    if instances is not None:
        recs.append(
            (
                1254,
                R.num(len(instances))
                + b"".join(R.pstr(n) + R.nums(round(v * 10000) for v in vals) for n, vals in instances),
            )
        )
    return recs


def master_records(names, locations):
    recs = []
    for i, (n, loc) in enumerate(zip(names, locations)):
        recs.append(s(1504, n))
        recs.append((1505, R.u32(i + 1) + R.dbl(*loc)))
    return recs


MM_AXES = {
    1: ([], [(0, 0, 0, 0)]),
    2: (["Weight"], [(0, 0, 0, 0), (1, 0, 0, 0)]),
    4: (["Weight", "Width"], [(0, 0, 0, 0), (1, 0, 0, 0), (0, 1, 0, 0), (1, 1, 0, 0)]),
    8: (
        ["Weight", "Width", "Optical Size"],
        [(a, b, c, 0) for c in (0, 1) for b in (0, 1) for a in (0, 1)],
    ),
    16: (
        ["Weight", "Width", "Optical Size", "Serif"],
        [(a, b, c, d) for d in (0, 1) for c in (0, 1) for b in (0, 1) for a in (0, 1)],
    ),
}


def font(glyphs=(), masters=1, before=(), after=(), platform="macos", stems=None, ps=None,
         names=None, axes=True):  # fmt: skip
    """glyphs: list of (glyph dict, [companion records]); a complete file."""
    recs = []
    ax, locs = MM_AXES[masters]
    if masters > 1 and axes:
        recs += axes_records(ax, locs)
    recs += list(before)
    for m in range(masters):
        if masters > 1 or names:
            recs.append(s(1504, (names or [f"Master {i}" for i in range(masters)])[m]))
            recs.append((1505, R.u32(m + 1) + R.dbl(*locs[m])))
        recs.append(psrec(**((ps or [{}] * masters)[m])))
    for g in glyphs:
        g, comp = g if isinstance(g, tuple) else (g, [])
        recs.append((R.GLYPH, R.glyph(g)))
        recs += comp
    recs += list(after)
    return R.vfb_file(recs, masters=masters, platform=platform, stems=stems)


def read(data, decompile=True, **kw):
    from vfbLib.vfb.vfb import Vfb

    v = Vfb(timing=False, **kw)
    v.read_bytes(BytesIO(data))
    if decompile:
        v.decompile()
    return v


def convert(data, minimal=False, drop=None, reading=None, **opts):
    """(list of UFO masters, designspace) of the file"""
    from vfbLib.ufo.builder import VfbToUfoBuilder

    v = read(data, minimal=minimal, drop_keys=drop, **(reading or {}))
    b = VfbToUfoBuilder(v, minimal=minimal, **opts)
    return b.get_ufos_designspace(Path("/nowhere/font.ufo"), silent=True)


# ------------------------------------------------------------------ outlines


def ref_points(nodes, m, labels=None):
    """UFO points [[(type, smooth, name, pt), ...] per contour] of master m, by
    the definition of VFB outlines; nodes must be well-formed."""
    labels = labels or {}
    paths = []
    for i, n in enumerate(nodes):
        if n["type"] == "move":
            paths.append([])
        paths[-1].append((i, n))
    res = []
    for path in paths:
        pts = []
        pending = False
        for i, n in path:
            p = tuple(n["points"][m][0])
            sm = bool(n["flags"] & 1)
            nm = labels.get(i)
            t = n["type"]
            if t == "move":
                pts.append(["move", sm, nm, p])
            elif t == "line":
                pts.append(["qcurve" if pending else "line", sm, nm, p])
                pending = False
            elif t == "curve":
                pts.append([None, False, None, tuple(n["points"][m][1])])
                pts.append([None, False, None, tuple(n["points"][m][2])])
                pts.append(["curve", sm, nm, p])
            else:
                pts.append([None, False, nm, p])
                pending = True
        if not path[0][1]["flags"] & 8 and len(pts) > 1:
            last = pts[-1]
            if last[0] is None:
                pts[0][0] = "qcurve"
            elif last[0] == "curve" and all(
                tuple(a[0]) == tuple(b[0])
                for a, b in zip(path[0][1]["points"], path[-1][1]["points"])
            ):
                first = pts[0]
                pts[0] = pts.pop()
                if pts[0][2] is None:
                    pts[0][2] = first[2]
            else:
                pts[0][0] = "line"
        res.append([tuple(p) for p in pts])
    return res


def ref_segments(nodes, m):
    """Segment pen calls of master m"""
    calls = []
    start = None
    offs = []
    op = False

    def end():
        nonlocal offs
        if start is None:
            return
        if offs:
            calls.append(("qCurveTo", tuple(offs + [start])))
            offs = []
        calls.append(("endPath" if op else "closePath", ()))

    for n in nodes:
        ps = [tuple(p) for p in n["points"][m]]
        t = n["type"]
        if t == "move":
            end()
            start = ps[0]
            op = bool(n["flags"] & 8)
            calls.append(("moveTo", (ps[0],)))
        elif t == "line":
            if offs:
                calls.append(("qCurveTo", tuple(offs + [ps[0]])))
                offs = []
            else:
                calls.append(("lineTo", (ps[0],)))
        elif t == "curve":
            calls.append(("curveTo", (ps[1], ps[2], ps[0])))
        else:
            offs.append(ps[0])
    end()
    return calls


def ref_components(comps, m, order):
    def n(x):
        x = round(x, 15)
        return int(x) if float(x).is_integer() else x

    return [
        (order[c["gid"]],
         (n(c["scaleX"][m]), 0, 0, n(c["scaleY"][m]), c["offsetX"][m], c["offsetY"][m]))
        for c in comps or []
    ]  # fmt: skip


def ufo_points(glyph):
    """Points of a ufoLib2 glyph in the same form, via its point pen"""
    from fontTools.pens.recordingPen import RecordingPointPen

    pen = RecordingPointPen()
    glyph.drawPoints(pen)
    return rec_points(pen)


def rec_points(pen):
    contours, comps = [], []
    for name, args, kw in pen.value:
        if name == "beginPath":
            contours.append([])
        elif name == "addPoint":
            pt, t, smooth, nm = args[:4]
            contours[-1].append((t, bool(smooth), nm, tuple(pt)))
        elif name == "addComponent":
            comps.append((args[0], tuple(args[1])))
    return contours, comps


TYPES = ("line", "curve", "qcurve")


def type_seqs(n):
    """All well-formed segment type sequences of a contour with n segments"""
    from itertools import product

    for seq in product(TYPES, repeat=n):
        if any(a == "qcurve" and b == "curve" for a, b in zip(seq, seq[1:])):
            continue
        yield seq


def contour(seq, masters=1, closed_eq=None, open_=False, base=0, smooth=0, flat=False):
    """Nodes of a contour.  closed_eq: set of masters in which the last point
    equals the first one; smooth: bit set over nodes."""
    closed_eq = closed_eq or set()

    def pt(i, j, m):
        if flat:
            return (base, base)
        return (base + i * 10 + j * 3 + m * 100, base + (i * 7 + j * 5) % 31 - m)

    nodes = [node("move", (8 if open_ else 0) | (smooth & 1), [[pt(0, 0, m)] for m in range(masters)])]
    for i, t in enumerate(seq, 1):
        pts = []
        for m in range(masters):
            p = [pt(i, j, m) for j in range(3 if t == "curve" else 1)]
            if i == len(seq) and m in closed_eq:
                p[0] = pt(0, 0, m)
            pts.append(p)
        nodes.append(node(t, smooth >> i & 1, pts))
    return nodes


# ------------------------------------------------------------------ records


def gdef(v):
    cls = ["unassigned", "base", "ligature", "mark", "component"]
    b = R.num(cls.index(v.get("glyph_class", "unassigned")))
    an = v.get("anchors", [])
    b += R.num(len(an))
    for a in an:
        b += R.pstr(a.get("name", "")) + R.nums([a["x"], -1, a["y"], -1])
    b += R.num(len(v.get("carets", [])))
    for c in v.get("carets", []):
        b += R.nums(c)
    o = v.get("ot_classes", [])
    return (2018, b + R.num(len(o)) + R.nums(o))


def anchors_mm(lst, m):
    b = R.num(len(lst)) + R.num(m)
    for a in lst:
        for k in range(m):
            b += R.num(a["x"][k]) + R.num(a["y"][k])
    return (2029, b)


def mask(nodes, m):
    return (2009, R.num(0) + R.outlines(nodes, m))


def mask_metrics(lst):
    recs = [(2011, R.i16(lst[0][0]) + R.i16(lst[0][1]))]
    if len(lst) > 1:
        recs.append((2028, b"".join(R.nums(p) for p in lst[1:])))
    return recs


def plain(o):
    """ufoLib2 objects as plain data, without absent values"""
    if isinstance(o, (str, int, float, bytes, bool)) or o is None:
        return o
    if isinstance(o, dict):
        return {k: plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [plain(v) for v in o]
    d = {}
    for k in ("x", "y", "angle", "name", "color"):
        v = getattr(o, k, None)
        if v is not None:
            d[k] = v
    return d


# ------------------------------------------------------------------ TrueType


def tt_records(stems=None, zones=None, deltas=(), settings=None):
    """stems: {"ttStemsV"/"ttStemsH": [(value, name, (ppm of 1..6 px))]}; zones:
    {"ttZonesT"/"ttZonesB": [(position, width, name)]}; deltas: (zone, ppm,
    shift); settings: {record id: number}; in the order of FontLab files"""
    stems = stems or {"ttStemsV": [], "ttStemsH": []}
    zones = zones or {"ttZonesT": [], "ttZonesB": []}
    SD, ZD = ("ttStemsV", "ttStemsH"), ("ttZonesT", "ttZonesB")
    recs = [(k, R.u16(v)) for k, v in (settings or {}).items()]
    recs.append((1268, b"".join(R.num(len(stems[d])) + b"".join(R.nums(s[2][1:5]) for s in stems[d]) for d in SD)))
    recs.append((1269, R.tt_stems({d: [dict(value=v, name=n, round={6: p[5]}) for v, n, p in stems[d]] for d in SD})))
    recs.append((1524, b"".join(R.num(s[2][0]) for d in SD for s in stems[d])))
    recs.append((1255, b"".join(R.num(len(zones[d])) + b"".join(R.num(p) + R.num(w) + R.pstr(n) for p, w, n in zones[d]) for d in ZD)))
    recs.append((1273, R.num(len(deltas)) + b"".join(R.nums(x) for x in deltas)))
    return recs


TT_XML = {
    "AlignTop": "alignt", "AlignBottom": "alignb", "SingleLinkH": "singleh", "SingleLinkV": "singlev",
    "DoubleLinkH": "doubleh", "DoubleLinkV": "doublev", "AlignH": "alignh", "AlignV": "alignv",
    "InterpolateH": "interpolateh", "InterpolateV": "interpolatev", "MDeltaH": "mdeltah",
    "MDeltaV": "mdeltav", "FDeltaH": "fdeltah", "FDeltaV": "fdeltav",
}  # fmt: skip
TT_ALIGN = {0: "round", 1: "left", 2: "right", 3: "center", 4: "double"}
TT_POINTS = {"pt": "point", "pt1": "point1", "pt2": "point2", "pti": "point"}


def tt_command(cmd, stem_names, zone_names):
    """(points {attribute: node index}, other attributes) of the exported form"""
    code, p = cmd["cmd"], cmd["params"]
    pts = {TT_POINTS[k]: v for k, v in p.items() if k in TT_POINTS}
    d = {"code": TT_XML[code]}
    if "zone" in p:
        d["zone"] = zone_names["ttZonesT" if code == "AlignTop" else "ttZonesB"][p["zone"]]
    if "align" in p and p["align"] > -1:
        d["align"] = TT_ALIGN.get(p["align"], "round")
    if "stem" in p:
        if p["stem"] <= -2:
            d["round"] = "true"
        elif p["stem"] >= 0:
            names = stem_names["ttStems" + code[-1]]
            d["stem"] = names[p["stem"] if p["stem"] < len(names) else 0]
    for k, a in (("shift", "delta"), ("ppm1", "ppm1"), ("ppm2", "ppm2")):
        if k in p:
            d[a] = str(p[k])
    return pts, d


def tt_rounds(ppms):
    """{ppm: px}, the bigger width wins"""
    d = {}
    for px, ppm in enumerate(ppms, 1):
        d[str(ppm)] = px
    return d
