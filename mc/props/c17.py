"""Drawing into glyphs: every sequence of clear/draw/component/read/save/reload
steps up to a depth, on several initial glyphs, against a list-of-contours model."""
from io import BytesIO
from itertools import product

from mc import ufo as U
from mc.codec import gl

PID = "C17"
RULE = (
    "all operation sequences over clear, point pen, segment pen, component, read, save, reload on two "
    "glyphs; with and without a read after each step; a state is a history"
)
BOUNDS = {
    "quick": "depth 3 over 19 operations, depth 4 over a core of 8, 4 initial glyphs, 1 and 2 masters; up to 2 new glyphs; all sequences of point types up to 5 points from any start point, pairs up to 2; all cubic contours up to 4 points are refused; 300 component offsets; 26 components that are rotated, skewed or have no base, refused in each initial glyph; programs of up to 300 points",
    "thorough": "depth 4 over 19 operations, depth 5 over a core of 8, 4 initial glyphs, 1 and 2 masters; point type sequences up to 7 points, pairs up to 3; cubic contours up to 5",
}
CHUNK = 1
CASE_LIMIT = 300

# contours: (closed, [(type, pt), ...]) as point pen calls
CONTOURS = {
    "lines": (True, [("line", (0, 0)), ("line", (100, 0)), ("line", (50, 80))]),
    "quad": (True, [("qcurve", (10, 10)), (None, (60, 0)), (None, (110, 10)), ("qcurve", (110, 110)), (None, (60, 150))]),
    "open": (False, [("move", (-5, 7)), ("line", (95, 7)), (None, (120, 50)), ("qcurve", (95, 99))]),
    "float": (True, [("line", (0.4, -0.4)), ("line", (99.6, 1.2)), (None, (110.5, 20.49)), ("qcurve", (40.51, 77.7))]),
    "mixed": (True, [("line", (300, 300)), (None, (350, 280)), ("qcurve", (400, 300)), ("line", (400, 400))]),
}
BIG = 40000
CONTOURS["big"] = (True, [("line", (-BIG, BIG)), ("line", (BIG, BIG)), ("line", (1131, -1132))])


def model_contour(name):
    closed, pts = CONTOURS[name]
    return [(t, (round(x), round(y))) for t, (x, y) in pts]


def seg_calls(name):
    """The contour as segment pen calls (start at the first on-curve point)"""
    closed, pts = CONTOURS[name]
    calls = [("moveTo", (pts[0][1],))]
    off = []
    for t, p in pts[1:]:
        if t is None:
            off.append(p)
        elif t == "qcurve":
            calls.append(("qCurveTo", tuple(off + [p])))
            off = []
        else:
            calls.append(("lineTo", (p,)))
    if off:
        calls.append(("qCurveTo", tuple(off + [pts[0][1]])))
    calls.append(("closePath" if closed else "endPath", ()))
    return calls


INIT = {
    "empty": lambda m: (gl(name="g", nodes=[], num_masters=m), [], []),
    "lines": lambda m: _with(m, [("line", "line")], []),
    "two+comp": lambda m: _with(m, [("line", "qcurve", "line"), ("curve", "line")], [(1, 5, -7, 1.0, 1.0)]),
    "comp": lambda m: _with(m, [], [(2, 0, 0, 1.0, 1.0), (1, 20, 30, -1.0, 0.5)]),
}


def _with(m, seqs, comps):
    nodes = []
    for i, sq in enumerate(seqs):
        nodes += U.contour(sq, m, base=i * 300)
    cs = [
        dict(gid=g, offsetX=[x] * m, offsetY=[y] * m, scaleX=[sx] * m, scaleY=[sy] * m)
        for g, x, y, sx, sy in comps
    ]
    model = [[(t, p) for t, _, _, p in c] for c in U.ref_points(nodes, 0)]
    g = gl(name="g", nodes=nodes, components=cs, num_masters=m, hints={"h": [[{"pos": 1, "width": 2}] * m], "v": []})
    return g, model, [(["base", "other"][c[0] - 1], (c[3], 0, 0, c[4], c[1], c[2])) for c in comps]


OPS = (
    ["clear", "read", "readseg", "save", "reload", "compile", "decompile", "comp:base", "comp:other"]
    + [f"pt:{c}" for c in CONTOURS]
    + [f"seg:{c}" for c in ("lines", "quad", "open")]
    + ["clear2", "pt2:quad"]
)
CORE = ["clear", "read", "save", "reload", "pt:quad", "seg:open", "pt:float", "pt2:quad"]


def cases(tier):
    d = 3 if tier == "quick" else 4
    lst = list(forms(tier))
    for how in ("int", "float", "close", "same", "twice"):
        for m in (1, 2):
            for lo in range(0, len(lst), 60):
                yield "form", [m, how, [[c] for c in lst[lo : lo + 60]]]
    few = [c for c in lst if len(c[1]) <= (2 if tier == "quick" else 3)]
    pairs = [[a, b] for a in few for b in few]
    for lo in range(0, len(pairs), 60):
        yield "form", [1, "int", pairs[lo : lo + 60]]
    cubic = []
    for k in range(1, 5 if tier == "quick" else 6):
        for seq in product(("curve", "line", "qcurve", None), repeat=k):
            if "curve" in seq:
                cubic.append(list(seq))
                if seq[0] is not None:
                    cubic.append(["move"] + list(seq))
    for lo in range(0, len(cubic), 60):
        yield "refused", [1 + lo // 60 % 2, cubic[lo : lo + 60]]
    for m in (1, 2):
        yield "offsets", m
    for m in (1, 2, 4, 16):
        for via in ("glyph", "master"):
            yield "frame", [m, via]
    for m in (1, 2):
        for n in (2, 3, 30, 63, 64, 65, 127, 128, 300, 1200) if tier == "quick" else [*range(2, 300), 1200, 5000, 40000]:
            yield "long", [m, n]
    for m in (1, 2):
        for init in INIT:
            for a in OPS:
                yield "hist", [m, init, [a], d, "all"]
            for a, b in product(CORE, repeat=2):
                yield "hist", [m, init, [a, b], d + 1, "core"]


    for m in (1, 2, 4, 8, 16):
        for first in ("pt:quad", "seg:lines", "pt:open", "comp:base", "comp:g", ""):
            yield "new", [m, first, 1]
            if m < 8 or d == 4:
                yield "new", [m, first, 2]


class Model:
    def __init__(self, init, m):
        _, c, comps = INIT[init](m)
        self.g = [list(x) for x in c]
        self.comps = list(comps)
        self.o = [[(t, p) for t, _, _, p in x] for x in U.ref_points(OTHER(1)["nodes"], 0)]
        self.hints = bool(INIT[init](m)[0].get("hints"))


def OTHER(m):
    return gl(name="other", nodes=U.contour(("line", "line", "line"), m, flat=False), num_masters=m)


def data(init, m):
    g, _, _ = INIT[init](m)
    base = gl(name="base", nodes=U.contour(("line", "line"), m), num_masters=m)
    return U.font([g, base, OTHER(m)], m)


def points(g):
    from fontTools.pens.recordingPen import RecordingPointPen

    pen = RecordingPointPen()
    g.drawPoints(pen)
    cs, comps = U.rec_points(pen)
    return [[(t, p) for t, _, _, p in c] for c in cs], comps


def m0(c):
    """the model of master 0 only: initial outlines differ between masters"""
    return c


def run_one(m, init, hist, out, eager, blob, held=False):
    vfb = U.read(blob, decompile=False)
    mod = Model(init, m)
    # Either a new object for each step, or the same view of the first master all along
    views = {}

    def get(v, name):
        if not held:
            return v[name]
        if views.get("of") is not v:
            view = v.get_masters()[0]
            views.clear()
            views.update(of=v, g=view["g"], other=view["other"])
        return views[name]

    def check(v, what):
        cs, comps = points(get(v, "g"))
        out.eq(cs, mod.g, f"draw/{what}", f"outline after {hist}")
        out.eq(comps, mod.comps, f"comp/{what}", f"components after {hist}")
        cs, comps = points(get(v, "other"))
        out.eq(cs, mod.o, f"other/{what}", f"other glyph after {hist}")
        if len(get(v, "g")) != len(mod.g):
            out.fail(f"len/{what}", f"{len(get(v, 'g'))} contours after {hist}, expected {len(mod.g)}")
        if bool(v["g"].entry.data.get("hints")) != mod.hints:
            out.fail(f"hints/{what}", f"hints after {hist}")

    for op in hist:
        kind, _, arg = op.partition(":")
        glyph = get(vfb, "other" if kind.endswith("2") else "g")
        tgt = mod.o if kind.endswith("2") else mod.g
        kind = kind.rstrip("2")
        if kind == "clear":
            glyph.clearContours()
            del tgt[:]
            if tgt is mod.g:
                mod.hints = False
        elif kind == "pt":
            pen = glyph.getPointPen()
            pen.beginPath()
            for t, p in CONTOURS[arg][1]:
                pen.addPoint(p, t)
            pen.endPath()
            tgt.append(model_contour(arg))
        elif kind == "seg":
            pen = glyph.getPen()
            for name, args in seg_calls(arg):
                getattr(pen, name)(*args)
            tgt.append(model_contour(arg))
        elif kind == "comp":
            pen = glyph.getPointPen()
            t = (1.0, 0, 0, -0.5, 12, -40)
            pen.addComponent(arg, t)
            mod.comps.append((arg, t))
        elif kind == "read":
            check(vfb, "read")
        elif kind == "readseg":
            from fontTools.pens.recordingPen import RecordingPen

            pen = RecordingPen()
            vfb["g"].draw(pen)
            n = sum(v[0] == "moveTo" for v in pen.value)
            if n != len(mod.g):
                out.fail("draw/segments", f"{n} contours drawn after {hist}")
        elif kind == "compile":
            vfb.compile()
        elif kind == "decompile":
            vfb.decompile()
        else:
            b = BytesIO()
            vfb.write_bytes(b)
            fresh = U.read(b.getvalue(), decompile=False)
            check(fresh, "saved")
            if kind == "reload":
                vfb = fresh
        out.trans()
        if eager:
            check(vfb, "step")
    b = BytesIO()
    check(vfb, "end")
    vfb.write_bytes(b)
    check(U.read(b.getvalue(), decompile=True), "final")
    out.trace()


def run_hist(payload, out):
    m, init, head, depth, which = payload
    blob = data(init, m)
    ops = OPS if which == "all" else CORE
    n0 = len(out.fails)
    for k in range(depth - len(head) + 1):
        for tail in product(ops, repeat=k):
            h = list(head) + list(tail)
            out.state(repr((m, init, h)))
            out.case = ("one", [m, init, h])
            for eager in (False, True):
                run_one(m, init, h, out, eager, blob)
            if len(h) <= 3:
                run_one(m, init, h, out, len(h) % 2 == 0, blob, held=True)
            if len(out.fails) - n0 > 20:
                return


def run_single(payload, out):
    m, init, h = payload
    for eager in (False, True):
        for held in (False, True):
            run_one(m, init, h, out, eager, data(init, m), held)


def run_new(payload, out):
    """Glyphs made from scratch and added to the font"""
    from vfbLib.enum import G
    from vfbLib.vfb.entry import VfbEntry
    from vfbLib.vfb.glyph import VfbGlyph

    m, first, n = payload
    blob = data("lines", m)
    for names in product(("new", "n\u00e9w", "g"), repeat=n):
        for drawn in product(("pt:quad", "seg:lines", "pt:open", "comp:base", "comp:g", ""), repeat=n):
            if first != drawn[0]:
                continue
            what = f"{m} masters, {list(zip(names, drawn))}"
            out.state(what)
            vfb = U.read(blob, decompile=False)
            list(vfb.keys())
            want = []
            for name, d in zip(names, drawn):
                e = VfbEntry(vfb, eid=G.Glyph)
                g = VfbGlyph(e, vfb)
                if len(g) or g.name:
                    out.fail("new/empty", f"{what}: {e.data}")
                e.data["name"] = name
                e.data["metrics"] = [(600 + k, k) for k in range(m)]
                kind, _, arg = d.partition(":")
                if kind == "pt":
                    pen = g.getPointPen()
                    pen.beginPath()
                    for t, p in CONTOURS[arg][1]:
                        pen.addPoint(p, t)
                    pen.endPath()
                elif kind == "seg":
                    pen = g.getPen()
                    for c, args in seg_calls(arg):
                        getattr(pen, c)(*args)
                elif kind == "comp":
                    g.getPointPen().addComponent(arg, (1.0, 0, 0, 1.0, 3, -4))
                contours = [model_contour(arg)] if kind in ("pt", "seg") else []
                comps = [(arg, (1.0, 0, 0, 1.0, 3, -4))] if kind == "comp" else []
                if points(g) != (contours, comps):
                    out.fail("new/draw", f"{what}: {points(g)}")
                # Insert it after the last glyph
                vfb.add_entry(e)
                end = max(i for i, x in enumerate(vfb.entries[:-1]) if x.id == G.Glyph)
                vfb.entries.insert(end + 1, vfb.entries.pop())
                want.append((name, contours, comps))
                out.trans()
            b = BytesIO()
            vfb.write_bytes(b)
            fresh = U.read(b.getvalue())
            glyphs = [x for x in fresh.entries if x.id == G.Glyph]
            if len(glyphs) != 3 + n:
                out.fail("new/count", f"{what}: {len(glyphs)} glyphs")
                continue
            for x, (name, contours, comps) in zip(glyphs[3:], want):
                if x.data["name"] != name or x.data["metrics"] != [(600 + k, k) for k in range(m)] or x.data["num_masters"] != m:
                    out.fail("new/data", f"{what}: {x.data}")
                list(fresh.keys())
                if points(VfbGlyph(x, fresh)) != (contours, comps):
                    out.fail("new/saved", f"{what}: {points(VfbGlyph(x, fresh))}")
            old = [x.data for x in U.read(blob).entries if x.id == G.Glyph]
            if [x.data for x in glyphs[:3]] != old:
                out.fail("new/other", f"{what}: other glyphs have changed")
    out.trace()


def forms(tier):
    """All well-formed sequences of point types, starting anywhere."""
    top = 5 if tier == "quick" else 7
    for k in range(0, top + 1):
        for seq in product(("line", "qcurve", None), repeat=k):
            bad = any(t == "line" and seq[i - 1] is None for i, t in enumerate(seq)) if k else False
            if not bad:
                yield [True, list(seq)]
    for k in range(0, top):
        for seq in product(("line", "qcurve", None), repeat=k):
            if seq and seq[-1] is None or any(t == "line" and i and seq[i - 1] is None for i, t in enumerate(seq)):
                continue
            yield [False, ["move"] + list(seq)]


def place(seq, how):
    if how == "int":
        return [((i * 37) % 101 - 50, (i * 53) % 97 - 40) for i in range(len(seq))]
    if how == "float":
        return [((i * 37) % 101 - 50.3 + 0.1 * i, (i * 53) % 97 - 40.8) for i in range(len(seq))]
    pts = [(10 * i * i, 7 * i) for i in range(len(seq))]
    if how == "close" and len(pts) > 1:
        pts[-1] = pts[0]
    elif how == "same":
        pts = [(11, -12)] * len(pts)
    elif how == "twice":
        pts = [pts[i // 2] for i in range(len(pts))]
    return pts


def read_as(closed, pts):
    """The points of a drawn contour as they are read back: from the first
    on-curve point, or from an implied one if there is none."""
    if not pts:
        return None
    if closed:
        on = [i for i, (t, _) in enumerate(pts) if t is not None]
        if on:
            pts = pts[on[0] :] + pts[: on[0]]
        else:
            (x0, y0), (x1, y1) = pts[-1][1], pts[0][1]
            pts = [("qcurve", ((x0 + x1) / 2, (y0 + y1) / 2))] + pts
    res = []
    for i, (t, (x, y)) in enumerate(pts):
        if t is not None:
            if i == 0 and (not closed or len(pts) == 1):
                t = "move"
            else:
                t = "qcurve" if pts[i - 1][0] is None else "line"
        res.append((t, (round(x), round(y))))
    return res


def replay(pts, pen, smooth=False):
    pen.beginPath(**({"identifier": "c1"} if smooth else {}))
    for i, (t, p) in enumerate(pts):
        if smooth:
            pen.addPoint(p, t, smooth=t is not None, name=f"n{i}", identifier=f"p{i}")
        else:
            pen.addPoint(p, t)
    pen.endPath()


def through_segments(pts):
    """What a point pen gets if the contour is drawn with a segment pen"""
    from fontTools.pens.pointPen import PointToSegmentPen, SegmentToPointPen
    from fontTools.pens.recordingPen import RecordingPointPen

    rec = RecordingPointPen()
    replay(pts, PointToSegmentPen(SegmentToPointPen(rec)))
    cs, _ = U.rec_points(rec)
    return [[(t, p) for t, _, _, p in c] for c in cs]


def run_form(payload, out):
    from fontTools.pens.pointPen import PointToSegmentPen

    m, how, lst = payload
    for cs in lst:
        out.case = ("form", [m, how, [cs]])
        out.state(repr((m, how, cs)))
        pts = [list(zip(seq, [(x + 200 * k, y) for x, y in place(seq, how)])) for k, (_, seq) in enumerate(cs)]
        for kind in ("point", "smooth", "segment", "master"):
            if kind == "segment" and how == "same":
                continue
            vfb = U.read(data("empty", m), decompile=False)
            g = vfb["g"] if kind != "master" else vfb.get_masters()[0]["g"]
            want = []
            for (closed, _), c in zip(cs, pts):
                if kind == "segment":
                    want += [read_as(x[0][0] != "move", x) for x in through_segments(c)]
                    replay(c, PointToSegmentPen(g.getPen()))
                else:
                    want.append(read_as(closed, c))
                    replay(c, g.getPointPen(), smooth=kind == "smooth")
                out.trans()
            want = [w for w in want if w]
            for where in ("drawn", "saved"):
                if where == "saved":
                    b = BytesIO()
                    vfb.write_bytes(b)
                    vfb = U.read(b.getvalue(), decompile=False)
                for k, view in enumerate(vfb.get_masters()):
                    got, _ = points(view["g"])
                    out.eq(got, want, f"form/{kind}/{where}", f"contours {pts} in master {k}")
            out.trace()


def run_refused(payload, out):
    """Cubic curves are refused, and the glyph stays as it was"""
    m, lst = payload
    for seq in lst:
        out.case = ("refused", [m, [seq]])
        out.state(repr((m, seq)))
        for init in ("lines", "empty"):
            vfb = U.read(data(init, m), decompile=False)
            before = points(vfb["g"])
            try:
                replay(list(zip(seq, place(seq, "int"))), vfb["g"].getPointPen())
                out.fail("form/cubic", f"a contour {seq} was accepted and is {points(vfb['g'])[0]}")
            except ValueError:
                pass
            if points(vfb["g"]) != before:
                out.fail("form/refused", f"the glyph has changed with the refused contour {seq}")
            if init == "lines":
                # The pen can be used for another contour
                v2 = U.read(data(init, m), decompile=False)
                pen = v2["g"].getPointPen()
                try:
                    replay(list(zip(seq, place(seq, "int"))), pen)
                except ValueError:
                    pass
                replay([(t, p) for t, p in CONTOURS["quad"][1]], pen)
                out.eq(points(v2["g"])[0], before[0] + [model_contour("quad")], "form/afterrefused", f"contour after the refused {seq}")
            b = BytesIO()
            vfb.write_bytes(b)
            if points(U.read(b.getvalue(), decompile=False)["g"]) != before:
                out.fail("form/refusedsaved", f"the saved glyph has changed with the refused contour {seq}")
            out.trans()
        out.trace()


OFFSETS = (0, 0.0, 12.0, -7.5, 10.49, 99.51, -1131.2, 40000.0, -0.4, 3)


def run_long(payload, out):
    """Contours of many points, with and without on-curve points"""
    m, n = payload
    out.state(repr(payload))
    for kind in ("off", "on", "lead", "trail"):
        pts = [(None, ((i * 37) % 1009 * 2, (i * 53) % 977 * 2)) for i in range(n)]
        if kind == "on":
            pts = [("line", p) for _, p in pts]
        elif kind == "lead":
            pts[-1] = ("qcurve", pts[-1][1])
        elif kind == "trail":
            pts[0] = ("qcurve", pts[0][1])
        want = [read_as(True, pts)]
        vfb = U.read(data("empty", m), decompile=False)
        replay(pts, vfb["g"].getPointPen())
        for where in ("drawn", "saved"):
            if where == "saved":
                b = BytesIO()
                vfb.write_bytes(b)
                vfb = U.read(b.getvalue(), decompile=False)
            for k, view in enumerate(vfb.get_masters()):
                out.eq(points(view["g"])[0], want, f"long/{kind}/{where}", f"{n} points in master {k}")
        out.trans()
    out.trace()


FRAME = ("metrics", "kerning", "guides", "imported", "name", "num_masters")


def run_frame(payload, out):
    """Clearing and drawing leaves the other parts of the glyph alone, and the
    masters of what was drawn can be edited independently of each other"""
    m, via = payload
    out.state(repr(payload))
    g, _, _ = INIT["two+comp"](m)
    g.update(
        metrics=[(500 + k, -k) for k in range(m)],
        kerning={1: [-10 - k for k in range(m)], 2: [7 + k for k in range(m)]},
        guides={"h": [[(5 + k + i, 0) for k in range(m)] for i in range(2)], "v": [[(-k, -1000) for k in range(m)]]},
        imported=dict(width=500, lsb=1, unknown1=0, unknown2=0, unknown3=0, bbox=[0, 0, 1, 1], num_contours=0, endpoints=[], bytecode=b"\x2d", hdmx=[1, 2]),
    )
    base = gl(name="base", nodes=U.contour(("line", "line"), m), num_masters=m)
    blob = U.font([g, base, OTHER(m)], m)
    for steps in product(("clear", "quad", "comp", "save"), repeat=3):
        vfb = U.read(blob, decompile=False)
        before = U.read(blob)["g"].entry.data
        for s in steps:
            glyph = vfb["g"] if via == "glyph" else vfb.get_masters()[0]["g"]
            if s == "clear":
                glyph.clearContours()
            elif s == "quad":
                replay(CONTOURS["quad"][1], glyph.getPointPen())
            elif s == "comp":
                glyph.getPointPen().addComponent("base", (0.5, 0, 0, 0.5, 3, 3))
            else:
                vfb.write_bytes(BytesIO())
            out.trans()
        b = BytesIO()
        vfb.write_bytes(b)
        vfb = U.read(b.getvalue())
        after = vfb["g"].entry.data
        for key in FRAME:
            out.eq(after.get(key), before.get(key), f"frame/{key}", f"{key} after {steps}")
        out.eq([e.id for e in vfb.entries], [e.id for e in U.read(blob).entries], "frame/entries", f"entries after {steps}")
    # Editing one master of what was drawn
    for edited in range(m):
        vfb = U.read(blob, decompile=False)
        glyph = vfb["g"] if via == "glyph" else vfb.get_masters()[0]["g"]
        glyph.clearContours()
        vfb["g"].entry.data["components"] = []
        replay(CONTOURS["quad"][1], glyph.getPointPen())
        glyph.getPointPen().addComponent("base", (1, 0, 0, 1, 3, 3))
        d = vfb["g"].entry.data
        for n in d["nodes"]:
            x, y = n["points"][edited][0]
            n["points"][edited][0] = (x + 1000, y)
        for k, key in enumerate(("offsetX", "offsetY", "scaleX", "scaleY")):
            d["components"][0][key][edited] += k + 1
        b = BytesIO()
        vfb.write_bytes(b)
        for k, view in enumerate(U.read(b.getvalue()).get_masters()):
            on = k == edited
            want = [(t, (x + 1000 * on, y)) for t, (x, y) in model_contour("quad")]
            comp = ("base", (4, 0, 0, 5, 4, 5) if on else (1, 0, 0, 1, 3, 3))
            out.eq(points(view["g"]), ([want], [comp]), "frame/master", f"master {k} after master {edited} was edited")
        out.trans()
    out.trace()


def run_offsets(m, out):
    """Components with any offset are read back with the nearest integers"""
    for dx, dy in product(OFFSETS, repeat=2):
        for xx, yy in ((1, 1), (1.0, -0.5), (0.3333, 2), (1.0, 0.0), (0.0, 1.0), (-0.5, 1)):
            out.state(repr((m, dx, dy, xx, yy)))
            vfb = U.read(data("lines", m), decompile=False)
            vfb["g"].getPointPen().addComponent("base", (xx, 0, 0, yy, dx, dy))
            want = [("base", (xx, 0, 0, yy, round(dx), round(dy)))]
            for where in ("drawn", "saved"):
                if where == "saved":
                    b = BytesIO()
                    vfb.write_bytes(b)
                    vfb = U.read(b.getvalue(), decompile=False)
                for k, view in enumerate(vfb.get_masters()):
                    out.eq(points(view["g"])[1], want, f"offset/{where}", f"component ({dx}, {dy}) in master {k}")
            out.trans()
            out.trace()
    # A component that can't be stored is refused, and the glyph stays as it was
    for init in INIT:
        for base, (xx, xy, yx, yy) in [("base", t) for t in product((1, 0, -0.5), (0, 0.25, -1), (0, 0.25, 1), (1, 0)) if t[1] or t[2]] + [("missing", (1, 0, 0, 1))]:
            vfb = U.read(data(init, m), decompile=False)
            before = points(vfb["g"])
            try:
                vfb["g"].getPointPen().addComponent(base, (xx, xy, yx, yy, 3, 4))
                out.fail("offset/refused", f"component {base} {xx, xy, yx, yy} was accepted and is {points(vfb['g'])[1]}")
            except Exception:
                pass
            out.eq(points(vfb["g"]), before, "offset/after", f"glyph after the refused component {base} {xx, xy, yx, yy}")
            vfb["g"].getPointPen().addComponent("base", (1, 0, 0, 1, 5, 6))
            b = BytesIO()
            vfb.write_bytes(b)
            want = (before[0], before[1] + [("base", (1, 0, 0, 1, 5, 6))])
            out.eq(points(U.read(b.getvalue(), decompile=False)["g"]), want, "offset/next", f"glyph after the refused component {base} {xx, xy, yx, yy} and another one")
            out.trans()
        out.trace()


KINDS = {"long": run_long, "frame": run_frame, "form": run_form, "refused": run_refused, "offsets": run_offsets, "hist": run_hist, "one": run_single, "new": run_new}
