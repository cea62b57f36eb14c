"""Glyph access by name, and drawing: every outline grammar up to a size is
drawn with segment and point pens, from the font and from each master view."""
from itertools import product

from mc import ref as R
from mc import ufo as U
from mc.codec import gl
from mc.core import norm

PID = "C16"
RULE = (
    "all contours over all well-formed segment type sequences, open/closed/ending at the "
    "start point, all pairs of short contours, all component lists; all glyph name lists; "
    "a state is an outline or a name list"
)
BOUNDS = {
    "quick": "all coincidences of neighbouring points in contours of up to 2 segments (thorough: 3), contours of up to 4 segments, pairs of contours of up to 2, 1/2/4 masters; up to 1132 contours, nodes, components and glyphs in 9 sizes; name lists of up to 4 over 5 names; fonts of up to 3 glyphs (thorough: 5) with each record damaged, all pairs of ways to ask for the glyphs",
    "thorough": "contours of up to 6 segments, pairs of up to 3, triples of up to 1; name lists of up to 5 over 6 names",
}
CHUNK = 2


def outline_shapes(n):
    for k in range(n + 1):
        for seq in U.type_seqs(k):
            for form in ("gap", "eq", "open"):
                if form == "open" and seq and seq[-1] == "qcurve":
                    continue
                if form == "eq" and (not seq):
                    continue
                yield [(seq, form)]


def shapes(tier):
    top, pair = (4, 2) if tier == "quick" else (6, 3)
    single = list(outline_shapes(top))
    yield from single
    small = list(outline_shapes(pair))
    for a, b in product(small, repeat=2):
        yield a + b
    if tier == "thorough":
        tiny = list(outline_shapes(1))
        for a, b, c in product(tiny, repeat=3):
            yield a + b + c


def nodes_of(shape, masters):
    nodes = []
    for i, (seq, form) in enumerate(shape):
        nodes += U.contour(
            tuple(seq),
            masters,
            closed_eq=set(range(masters)) if form == "eq" else None,
            open_=form == "open",
            base=i * 500,
            smooth=0b101101 >> i,
        )
    return nodes


MODES = {
    "line": ["", "prev", "start"],
    "qcurve": ["", "prev"],
    "curve": ["", "c1=prev", "c2=end", "c1=prev,c2=end", "c1=c2", "c1=c2=end", "c1=c2=prev", "loop", "point"],
}


def coincide(nodes, modes):
    """Let points of the segments coincide."""
    for n, prev, mode in zip(nodes[1:], nodes, modes):
        for k, p in enumerate(n["points"]):
            q, s = tuple(prev["points"][k][0]), tuple(nodes[0]["points"][k][0])
            if mode == "prev":
                p[0] = q
            elif mode == "start":
                p[0] = s
            elif mode == "c1=c2":
                p[2] = p[1]
            elif mode == "c1=c2=end":
                p[1] = p[2] = p[0]
            elif mode == "c1=c2=prev":
                p[1] = p[2] = q
            elif mode == "loop":
                p[0] = q
            elif mode == "point":
                p[0] = p[1] = p[2] = q
            else:
                if "c1=prev" in mode:
                    p[1] = q
                if "c2=end" in mode:
                    p[2] = p[0]
    return nodes


def coincident(tier):
    top = 2 if tier == "quick" else 3
    for k in range(1, top + 1):
        for seq in U.type_seqs(k):
            for modes in product(*(MODES[t] for t in seq)):
                if not any(modes) or "start" in modes[:-1]:
                    continue
                for open_ in (False, True):
                    if open_ and seq[-1] == "qcurve":
                        continue
                    yield [seq, modes, open_]


def run_coincident(payload, out):
    masters, lst = payload
    glyphs = [
        gl(name=f"g{i}", nodes=coincide(U.contour(tuple(seq), masters, open_=o), modes), num_masters=masters)
        for i, (seq, modes, o) in enumerate(lst)
    ]
    order = [g["name"] for g in glyphs]
    vfb = U.read(U.font(glyphs, masters), decompile=False)
    for x, g in zip(lst, glyphs):
        out.state(repr((masters, x)))
        out.case = ("coincident", [masters, [x]])
        for m, view in enumerate(vfb.get_masters()):
            vfb.master_index = m
            draw(vfb, g["name"], m, g["nodes"], [], order, out, "font")
            draw(view, g["name"], m, g["nodes"], [], order, out, "master")
        out.trace()


def cases(tier):
    lst = list(coincident(tier))
    for m in (1, 2):
        for lo in range(0, len(lst), 60):
            yield "coincident", [m, lst[lo : lo + 60]]
    lst = list(shapes(tier))
    for m in (1, 2, 4, 16):
        for lo in range(0, len(lst), 40):
            yield "draw", [m, lst[lo : lo + 40]]
    names = ["A", "B", "A#1", "uni20AC", "\u00e4"]
    top = 4 if tier == "quick" else 5
    if tier == "thorough":
        names.append("A#1#1")
    for k in range(0, top + 1):
        seqs = [list(x) for x in product(names, repeat=k)]
        for lo in range(0, len(seqs), 100):
            yield "names", seqs[lo : lo + 100]
    # many glyphs of the same name
    yield "names", [["A"] * 12, ["A"] * 30, ["A#1"] * 3 + ["A"] * 12, ["A", "A#11"] * 15]
    for m in (1, 2):
        yield "components", m
        for n in (50, 127, 128, 255, 256, 257, 300, 1131, 1132):
            yield "many", [m, n]
    orders = [list(o) for k in (1, 2) for o in product(ACCESS, repeat=k)]
    for num in range(1, 4 if tier == "quick" else 6):
        for where in range(num):
            for what in ("half", "one", "all", "links"):
                yield "damaged", [num, where, what, orders]


def draw(vfb, name, m, nodes, comps, order, out, tag):
    from fontTools.pens.recordingPen import RecordingPen, RecordingPointPen

    g = vfb[name]
    want_seg = U.ref_segments(nodes, m) + [("addComponent", c) for c in U.ref_components(comps, m, order)]
    want_pts = U.ref_points(nodes, m)
    want_pts = [[(t, s, None, p) for t, s, _, p in c] for c in want_pts]
    if hasattr(g, "draw"):
        g.master_index = m
        pen = RecordingPen()
        g.draw(pen)
        out.trans()
        out.eq([list(v) for v in pen.value], [list(v) for v in want_seg], f"{tag}/draw", f"draw({name}), master {m}")
    pen = RecordingPointPen()
    g.drawPoints(pen)
    out.trans()
    pts, cs = U.rec_points(pen)
    out.eq(pts, want_pts, f"{tag}/points", f"drawPoints({name}), master {m}")
    out.eq(cs, U.ref_components(comps, m, order), f"{tag}/components", f"drawPoints({name}), master {m}")
    out.eq(len(g), sum(n["type"] == "move" for n in nodes), f"{tag}/len", f"contours of {name}")
    out.eq(g.name, name.split("#")[0] if tag == "names" else name, f"{tag}/name", "name")


def run_draw(payload, out):
    from fontTools.pens.recordingPen import RecordingPen

    masters, shapes = payload
    glyphs = [gl(name=f"g{i}", nodes=nodes_of(sh, masters), num_masters=masters) for i, sh in enumerate(shapes)]
    order = [g["name"] for g in glyphs]
    data = U.font(glyphs, masters)
    for how in ("lazy", "decompiled"):
        vfb = U.read(data, decompile=how == "decompiled")
        for i, (sh, g) in enumerate(zip(shapes, glyphs)):
            out.state(repr((masters, sh)))
            out.case = ("draw", [masters, [sh]])
            for m in range(masters):
                # the font-level object draws the master of its index
                vfb.master_index = m
                draw(vfb, g["name"], m, g["nodes"], [], order, out, "font")
            # the segment pen draws the master of the glyph's index, a master
            # object draws its own one, whatever the index of the font is
            glyph = vfb[g["name"]]
            for m in range(masters if masters < 16 else 3):
                vfb.master_index = (m + 1) % masters
                glyph.master_index = m
                pen = RecordingPen()
                glyph.draw(pen)
                out.eq([list(v) for v in pen.value], [list(v) for v in U.ref_segments(g["nodes"], m)], "font/index", f"draw, glyph index {m}, font index {vfb.master_index}")
            glyph.master_index = 0
            for m, view in enumerate(vfb.get_masters()):
                vfb.master_index = (m + 1) % masters
                draw(view, g["name"], m, g["nodes"], [], order, out, "master")
            out.trace()


def run_components(masters, out):
    vals = [0, 1, -1, 150]
    scales = [1.0, -1.0, 0.5, 0.0, 1 / 3, 1e-9, 0.1 + 0.2]
    lists = []
    for gid in range(3):
        for dx, dy in product(vals, repeat=2):
            for sx, sy in product(scales, repeat=2):
                lists.append([(gid, dx, dy, sx, sy)])
    lists += [[a[0], b[0]] for a in lists[::37] for b in lists[::41]]
    base = [gl(name=n, nodes=U.contour(("line", "line"), masters), num_masters=masters) for n in ("x", "y", "z")]
    glyphs = list(base)
    for i, l in enumerate(lists):
        comps = [
            dict(
                gid=g,
                offsetX=[dx + 3 * m for m in range(masters)],
                offsetY=[dy - m for m in range(masters)],
                scaleX=[sx + m for m in range(masters)],
                scaleY=[sy * (m + 1) for m in range(masters)],
            )
            for g, dx, dy, sx, sy in l
        ]
        glyphs.append(gl(name=f"c{i}", components=comps, num_masters=masters))
    order = [g["name"] for g in glyphs]
    vfb = U.read(U.font(glyphs, masters), decompile=False)
    for g in glyphs:
        out.state(repr(g.get("components")))
        for m in range(masters):
            vfb.master_index = m
            # `draw` passes the stored scale on, `drawPoints` rounds it to 15 digits
            from fontTools.pens.recordingPen import RecordingPen, RecordingPointPen

            pen = RecordingPointPen()
            vfb[g["name"]].drawPoints(pen)
            _, cs = U.rec_points(pen)
            want = U.ref_components(g.get("components"), m, order)
            out.eq(cs, want, "components/points", f"components of {g['name']}, master {m}")
            pen = RecordingPen()
            v = vfb[g["name"]]
            v.master_index = m
            v.draw(pen)
            got = [(a[0], tuple(round(x, 12) for x in a[1])) for k, a in pen.value if k == "addComponent"]
            want = [(n, tuple(round(x, 12) for x in t)) for n, t in want]
            out.eq(got, want, "components/draw", f"components of {g['name']}, master {m}")
            out.trans(2)
        out.trace()


def run_many(payload, out):
    """Many contours, many nodes, many components, many glyphs"""
    masters, n = payload
    a, b = ("line",), ("curve", "line")
    glyphs = [
        gl(name="contours", nodes=nodes_of([[b if i % 3 else a, "gap"] for i in range(n)], masters), num_masters=masters),
        gl(name="nodes", nodes=nodes_of([[("line", "curve") * n, "gap"]], masters), num_masters=masters),
        gl(name="quad", nodes=nodes_of([[("qcurve",) * n + ("line",), "gap"]], masters), num_masters=masters),
    ]
    comps = [dict(gid=i % 3, offsetX=[i] * masters, offsetY=[-i] * masters, scaleX=[1.0] * masters, scaleY=[1.0] * masters) for i in range(n)]
    glyphs.append(gl(name="components", components=comps, num_masters=masters))
    glyphs += [gl(name=f"g{i}", nodes=nodes_of([[a, "gap"]], masters), num_masters=masters) for i in range(n)]
    far = [dict(gid=i, offsetX=[0] * masters, offsetY=[0] * masters, scaleX=[1.0] * masters, scaleY=[1.0] * masters) for i in range(n + 4)]
    glyphs.append(gl(name="far", components=far, num_masters=masters))
    order = [g["name"] for g in glyphs]
    vfb = U.read(U.font(glyphs, masters), decompile=False)
    out.eq(list(vfb.keys()), order, "many/keys", "names")
    for g in glyphs[:4] + glyphs[-3:]:
        out.state(f"{masters} {n} {g['name']}")
        for m in range(masters):
            vfb.master_index = m
            draw(vfb, g["name"], m, g.get("nodes", []), g.get("components", []), order, out, "many")
    out.trace()


def run_names(seqs, out):
    for names in seqs:
        out.case = ("names", [names])
        out.state(repr(names))
        glyphs = [gl(name=n, metrics=[(100 + i, 0)]) for i, n in enumerate(names)]
        uniq = []
        for n in names:
            k, i = n, 1
            if k in uniq:
                while f"{n}#{i}" in uniq:
                    i += 1
                k = f"{n}#{i}"
            uniq.append(k)
        data = U.font(glyphs)
        for first in ("keys", "items", "in", "getitem", "decompile"):
            vfb = U.read(data, decompile=first == "decompile")
            if first == "in":
                for n in uniq:
                    if n not in vfb:
                        out.fail("names/in", f"{n} is not in the font {names}")
                if "nope" in vfb:
                    out.fail("names/in", f"'nope' is in the font {names}")
            elif first == "getitem":
                for i, n in enumerate(uniq):
                    out.eq(vfb[n].entry.data["metrics"], [(100 + i, 0)], "names/getitem", f"glyph {n} of {names}")
                try:
                    vfb["nope"]
                    out.fail("names/missing", "a glyph that does not exist was returned")
                except KeyError:
                    pass
            elif first == "items":
                out.eq([(k, g.entry.data["metrics"][0][0]) for k, g in vfb.items()],
                       [(n, 100 + i) for i, n in enumerate(uniq)], "names/items", f"items() of {names}")  # fmt: skip
            out.eq(list(vfb.keys()), uniq, "names/keys", f"keys() of {names} after {first}")
            if names:
                out.eq(list(vfb.glyph_order), uniq, "names/order", f"glyph_order of {names} after {first}")
            for i, n in enumerate(uniq):
                out.eq(vfb[n].entry.data["metrics"], [(100 + i, 0)], "names/getitem", f"glyph {n} of {names}")
                out.eq(vfb[n].name, names[i], "names/name", f"name of glyph {n}")
            for view in vfb.get_masters():
                out.eq(list(view.keys()), uniq, "names/masterkeys", "keys of a master")
                for i, n in enumerate(uniq):
                    out.eq(view[n].name, names[i], "names/mastername", f"name of glyph {n}")
                    if n not in view:
                        out.fail("names/masterin", f"{n} is not in the master")
            out.trans()
        out.trace()


ACCESS = ("keys", "items", "in", "getitem", "first", "masterkeys", "masteritem", "masterin")


def access(vfb, how, uniq):
    """What one way of asking the font for its glyphs gives."""
    if how == "keys":
        return list(vfb.keys())
    if how == "items":
        return [k for k, _ in vfb.items()]
    if how == "in":
        return [n for n in uniq if n in vfb]
    if how == "getitem":
        return [n for n in uniq if vfb[n] is not None]
    if how == "first":
        return [n for n in uniq[:1] if vfb[n].name] + uniq[1:]
    view = vfb.get_masters()[0]
    if how == "masterkeys":
        return list(view.keys())
    if how == "masterin":
        return [n for n in uniq if n in view]
    return [n for n in uniq if view[n].name == n]


def run_damaged(payload, out):
    """A font with a record that can't be read: whatever is asked for, in whatever
    order, gives all glyphs or an error, never a part of them."""
    from vfbLib.vfb.entry import VfbEntry

    num, where, what, orders = payload
    glyphs = [gl(name=f"g{i}", nodes=U.contour(("line", "curve"), 1), metrics=[(100 + i, 0)]) for i in range(num)]
    uniq = [g["name"] for g in glyphs]
    data = U.font(glyphs, 1)
    for order in orders:
        out.case = ("damaged", [num, where, what, [order]])
        vfb = U.read(data, decompile=False)
        at = [i for i, e in enumerate(vfb.entries) if e.id == 2001][where]
        if what == "links":
            bad = VfbEntry(vfb)
            bad.id = 2008
            vfb.entries.insert(at + 1, bad)
            good, cut = R.num(1) + R.nums((0, 1)) + R.num(0), R.num(3) + R.nums((0, 1))
        else:
            bad = vfb.entries[at]
            good = bad.data
            cut = {"half": good[: len(good) // 2], "one": good[:1], "all": b"\x01"}[what]
        bad.data = cut
        out.state(repr((num, where, what)))
        for how in order:
            try:
                got = access(vfb, how, uniq)
            except Exception:
                got = None
            if got is not None and got != uniq:
                out.fail("damaged/partial", f"{how} gives {got} of {uniq} with glyph {where} damaged ({what}), order {order}")
            if not set(vfb.glyph_order) <= set(uniq) or len(vfb.glyph_order) not in (0, num):
                out.fail("damaged/order", f"glyph_order is {vfb.glyph_order} of {uniq} with glyph {where} damaged ({what})")
            out.trans()
        # once the record is repaired, everything is there
        bad.data = good
        for how in ACCESS:
            out.eq(access(vfb, how, uniq), uniq, "damaged/repaired", f"{how} after repairing glyph {where}")
        out.eq(list(vfb.glyph_order), uniq, "damaged/repaired", "glyph_order after repairing")
        for i, n in enumerate(uniq):
            out.eq(vfb[n].entry.data["metrics"], [(100 + i, 0)], "damaged/repaired", f"glyph {n}")
        out.trace()


KINDS = {"damaged": run_damaged, "draw": run_draw, "names": run_names, "components": run_components, "coincident": run_coincident, "many": run_many}
