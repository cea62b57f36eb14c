"""Redrawing multiple-master glyphs master by master: every interleaving of the
per-master clear/draw steps, every subset of redrawn masters, several rounds
with saves in between; incompatible masters have to be refused."""
from io import BytesIO
from itertools import combinations, permutations, product

from mc import ref as R
from mc import ufo as U
from mc.codec import gl

PID = "C18"
RULE = (
    "all interleavings of the clear and draw steps of all masters; all sequences of rounds with save/reload; all "
    "pairs of incompatible outlines; a state is a history"
)
BOUNDS = {
    "quick": "2 masters: all interleavings of clear + 2 contours, 2 rounds; 4 masters: all master orders, one round; every structure difference; smooth points",
    "thorough": "2 masters: all interleavings of clear + 3 contours, 3 rounds; 4 masters: all orders and steps split, 2 rounds",
}
CHUNK = 4
CASE_LIMIT = 120

SHAPES = {
    # type sequences of the contours; the points are made up per master
    "A": [("L", "L", "L")],
    "B": [("L", "O", "Q", "L"), ("L", "L")],
    "C": [("Q", "O", "O"), ("M", "L", "O", "Q")],
    "D": [("L", "L"), ("Q", "O"), ("L", "O", "Q")],
}
CODE = {"L": "line", "O": None, "Q": "qcurve", "M": "move"}


def pts(shape, m, rnd):
    res = []
    for ci, seq in enumerate(SHAPES[shape]):
        res.append(
            [
                (CODE[t], (ci * 500 + i * 40 + m * 7 + rnd * 3, -i * i * 11 + m * 1000 - rnd))
                for i, t in enumerate(seq)
            ]
        )
    return res


def interleavings(seqs):
    """All merges of the sequences, each kept in order"""
    if not any(seqs):
        yield []
        return
    for i, s in enumerate(seqs):
        if s:
            rest = [list(x) for x in seqs]
            head = rest[i].pop(0)
            for t in interleavings(rest):
                yield [head] + t


def cases(tier):
    shapes = ["A", "B", "C"] if tier == "quick" else list(SHAPES)
    # two masters, all interleavings of the steps of each round
    for pen in ("pt", "seg"):
        for sh in shapes:
            n = len(SHAPES[sh])
            steps = [[(m, "clear")] + [(m, i) for i in range(n)] for m in (0, 1)]
            for inter in interleavings(steps):
                yield "rounds", [2, pen, [[sh, inter]]]
    for pen in ("pt", "seg"):
        k = 2 if tier == "quick" else 3
        for combo in product(shapes, repeat=k):
            for orders in product(permutations((0, 1)), repeat=k):
                for mid in ("save", "reload", "compile", "decompile"):
                    rounds = [[sh, [(m, x) for m in o for x in ["clear"] + list(range(len(SHAPES[sh])))]] for sh, o in zip(combo, orders)]
                    yield "rounds", [2, pen, rounds, mid]
    for sh in shapes:
        for o in permutations(range(4)):
            seq = [(m, x) for m in o for x in ["clear"] + list(range(len(SHAPES[sh])))]
            yield "rounds", [4, "pt", [[sh, seq]]]
            split = [(m, "clear") for m in o] + [(m, i) for i in range(len(SHAPES[sh])) for m in o]
            yield "rounds", [4, "pt", [[sh, split]]]
            if tier == "thorough":
                for sh2 in shapes:
                    seq2 = [(m, x) for m in reversed(o) for x in ["clear"] + list(range(len(SHAPES[sh2])))]
                    for mid in ("save", "reload"):
                        yield "rounds", [4, "seg", [[sh, seq], [sh2, seq2]], mid]
    # only some of the masters: redrawing the others leaves them as they are
    for n in (2, 4):
        for k in range(1, n):
            for sub in combinations(range(1, n), k):
                for mid in (None, "save"):
                    yield "subset", [n, list(sub), mid]
    # as many masters as the format has
    for n in (8, 16):
        for o in (list(range(n)), list(reversed(range(n))), list(range(n // 2, n)) + list(range(n // 2))):
            for sh in shapes:
                seq = [(m, x) for m in o for x in ["clear"] + list(range(len(SHAPES[sh])))]
                split = [(m, "clear") for m in o] + [(m, i) for i in range(len(SHAPES[sh])) for m in o]
                for s in (seq, split):
                    yield "rounds", [n, "pt", [[sh, s]]]
                    yield "rounds", [n, "seg", [[sh, s], [shapes[0], [(m, x) for m in o for x in ["clear", 0]]]], "save"]
        for m in range(1, n):
            for sub in ([m], [x for x in range(1, n) if x != m]):
                yield "subset", [n, sub, "save"]
    # the masters' data are edited after they were drawn and saved
    for n in (2, 4, 16):
        for drawn in (["data"] + [list(range(n)), [n - 1], list(range(1, n)), [0]]):
            for mid in ("save", "compile", "reload"):
                for m in sorted({0, 1, n - 1}):
                    yield "edit", [n, drawn, mid, m]
    # the structure has to be the same in all masters
    kinds = [()]
    for k in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        kinds += list(product("LOQ", repeat=k))
    ok = [
        k
        for k in kinds
        if k and k[-1] != "O" and not any(a == "O" and b == "L" for a, b in zip(k, k[1:]))
    ]
    for a in ok:
        yield "refuse", [a, ok]
    yield "components", None
    sets = [[c, k] for n in range(0, 3) for c in product(CONTOUR, repeat=n) for i in range(0, 3) for k in product("bg", repeat=i)]
    for a in sets:
        for lo in range(0, len(sets), 30):
            yield "misfit", [a, sets[lo : lo + 30]]


def build(masters):
    nodes = U.contour(("line", "line"), masters)
    comps = [dict(gid=1, offsetX=[10 + m for m in range(masters)], offsetY=[-m for m in range(masters)], scaleX=[1.0] * masters, scaleY=[1.0] * masters)]
    hints = {"h": [[{"pos": 1, "width": 2}] * masters], "v": []}
    g = gl(name="g", nodes=nodes, components=comps, num_masters=masters, hints=hints, metrics=[(500 + m, 0) for m in range(masters)])
    b = gl(name="b", nodes=U.contour(("line", "qcurve"), masters), num_masters=masters)
    return U.font([g, b], masters), g, b


def points(v, name):
    from fontTools.pens.recordingPen import RecordingPointPen

    pen = RecordingPointPen()
    v[name].drawPoints(pen)
    cs, comps = U.rec_points(pen)
    return [[(t, p) for t, _, _, p in c] for c in cs], comps


def ref_of(g, m):
    return [[(t, p) for t, _, _, p in c] for c in U.ref_points(g["nodes"], m)]


def draw_step(views, m, what, shape, rnd, pen):
    g = views[m]["g"]
    if what == "clear":
        g.clearContours()
        return
    c = pts(shape, m, rnd)[what]
    if pen == "pt":
        p = g.getPointPen()
        p.beginPath()
        for t, xy in c:
            p.addPoint(xy, t)
        p.endPath()
    else:
        p = g.getPen()
        p.moveTo(c[0][1])
        off = []
        for t, xy in c[1:]:
            if t is None:
                off.append(xy)
            elif t == "qcurve":
                p.qCurveTo(*off, xy)
                off = []
            else:
                p.lineTo(xy)
        if off:
            p.qCurveTo(*off, c[0][1])
        p.endPath() if c[0][0] == "move" else p.closePath()


def save(vfb):
    b = BytesIO()
    vfb.write_bytes(b)
    return b.getvalue()


def check(vfb, masters, want, comps, out, tag, b):
    for m, view in enumerate(vfb.get_masters()):
        cs, cp = points(view, "g")
        out.eq(cs, want[m], f"{tag}/outline", f"master {m}")
        out.eq([c[1][4:] for c in cp], comps[m], f"{tag}/components", f"master {m}")
        cs, _ = points(view, "b")
        out.eq(cs, ref_of(b, m), f"{tag}/other", f"other glyph, master {m}")
    out.eq([list(x) for x in vfb["g"].entry.data["metrics"]], [[500 + m, 0] for m in range(masters)], f"{tag}/metrics", "widths")
    out.trans()


def run_rounds(payload, out):
    masters, pen, rounds, *mid = payload
    mid = mid[0] if mid else None
    out.state(repr(payload))
    data, g, b = build(masters)
    comps = [[(10 + m, -m)] for m in range(masters)]
    vfb = U.read(data, decompile=False)
    views = vfb.get_masters()
    for rnd, (shape, steps) in enumerate(rounds):
        for m, what in steps:
            draw_step(views, m, what, shape, rnd, pen)
            out.trans()
        want = [pts(shape, m, rnd) for m in range(masters)]
        if mid == "decompile":
            vfb.compile()
            vfb.decompile()
            check(vfb, masters, want, comps, out, "rounds/live", b)
        elif mid == "compile":
            vfb.compile()
        else:
            blob = save(vfb)
            fresh = U.read(blob, decompile=False)
            check(fresh, masters, want, comps, out, "rounds/saved", b)
            if mid == "reload":
                vfb = fresh
                views = vfb.get_masters()
    check(vfb, masters, want, comps, out, "rounds/end", b)
    out.eq(save(vfb), save(vfb), "rounds/twice", "second save")
    check(U.read(save(vfb)), masters, want, comps, out, "rounds/final", b)
    if vfb["g"].entry.data and not isinstance(vfb["g"].entry.data, bytes) and vfb["g"].entry.data.get("hints"):
        out.fail("rounds/hints", "hints of the cleared glyph were kept")
    out.trace()


def run_subset(payload, out):
    """Redraw some of the additional masters with the structure of the glyph"""
    masters, sub, mid = payload
    out.state(repr(payload))
    data, g, b = build(masters)
    comps = [[(10 + m, -m)] for m in range(masters)]
    vfb = U.read(data, decompile=False)
    want = [ref_of(g, m) for m in range(masters)]
    for rnd in range(2):
        for m in sub:
            view = vfb.get_masters()[m]["g"]
            view.clearContours()
            p = view.getPointPen()
            p.beginPath()
            c = [("line", (m * 100 + i + rnd, i * 17 - m)) for i in range(3)]
            for t, xy in c:
                p.addPoint(xy, t)
            p.endPath()
            want[m] = [c]
            out.trans()
        if mid == "save":
            save(vfb)
    check(U.read(save(vfb)), masters, want, comps, out, "subset", b)
    out.trace()


def run_edit(payload, out):
    """Redraw masters, save, edit one master's data, and save again"""
    masters, drawn, mid, edited = payload
    out.state(repr(payload))
    data, g, b = build(masters)
    comps = [[(10 + m, -m)] for m in range(masters)]
    vfb = U.read(data, decompile=False)
    want = [ref_of(g, m) for m in range(masters)]
    for rnd in range(2):
        for m in [] if drawn == "data" else drawn:
            view = vfb.get_masters()[m]["g"]
            view.clearContours()
            p = view.getPointPen()
            p.beginPath()
            want[m] = [[("line", (m * 100 + i + rnd, i * 17 - m)) for i in range(3)]]
            for t, xy in want[m][0]:
                p.addPoint(xy, t)
            p.endPath()
            if m == 0:
                # Drawing the first master writes its points to all masters
                for k in range(1, masters):
                    if k not in drawn:
                        want[k] = [list(want[0][0])]
        if mid == "save":
            save(vfb)
        elif mid == "compile":
            vfb.compile()
        else:
            vfb = U.read(save(vfb), decompile=False)
        vfb["g"].decompile()
        d = vfb["g"].entry.data
        for i, n in enumerate(d["nodes"]):
            n["points"][edited] = [(rnd * 1000 + i, edited - 7 * i * rnd)]
        d["components"][0]["offsetX"][edited] = 77 + rnd
        want[edited] = [[(t, (rnd * 1000 + i, edited - 7 * i * rnd)) for i, (t, _) in enumerate(want[edited][0])]]
        comps[edited] = [(77 + rnd, -edited)]
        out.trans()
        blob = save(vfb)
        check(U.read(blob, decompile=False), masters, want, comps, out, "edit/saved", b)
        check(vfb, masters, want, comps, out, "edit/live", b)
    out.eq(save(vfb), blob, "edit/twice", "second save")
    out.trace()


def run_refuse(payload, out):
    a, others = payload
    a = tuple(a)
    for o in others:
        o = tuple(o)
        out.case = ("refuse", [a, [o]])
        out.state(repr((a, o)))
        data, g, b = build(2)
        vfb = U.read(data, decompile=False)
        views = vfb.get_masters()
        want = []
        for m, seq in enumerate((a, o)):
            views[m]["g"].clearContours()
            p = views[m]["g"].getPointPen()
            p.beginPath()
            c = [(CODE["L"], (m, m))] + [(CODE[t], (i * 10 + m, i * i + 3)) for i, t in enumerate(seq, 1)]
            for t, xy in c:
                p.addPoint(xy, t)
            p.endPath()
            want.append([c])
        try:
            blob = save(vfb)
        except Exception:
            if a == o:
                out.fail("refuse/compatible", f"compatible outlines {a} were refused")
                continue
            # Nothing is lost: still refused, until the outline is drawn again
            try:
                save(vfb)
                out.fail("refuse/again", f"masters drawn as {a} and {o} were refused, and saved the second time")
                continue
            except Exception:
                pass
            views[1]["g"].clearContours()
            p = views[1]["g"].getPointPen()
            p.beginPath()
            want[1] = [[(CODE["L"], (1, 1))] + [(CODE[t], (i * 10 + 1, i * i + 3)) for i, t in enumerate(a, 1)]]
            for t, xy in want[1][0]:
                p.addPoint(xy, t)
            p.endPath()
            try:
                blob = save(vfb)
            except Exception as x:
                out.fail("refuse/repaired", f"masters drawn as {a} and {o}, then as {a}: {type(x).__name__}: {x}")
                continue
            fresh = U.read(blob)
            for m in (0, 1):
                cs, _ = points(fresh.get_masters()[m], "g")
                out.eq([[q for _, q in c] for c in cs], [[tuple(q) for _, q in c] for c in want[m]], "refuse/repaired", f"masters drawn as {a} and {o}, then as {a}: master {m}")
            continue
        finally:
            out.trans()
        # "qcurve" after an on-curve point is a line
        same = [t if t == "O" else "L" for t in a] == [t if t == "O" else "L" for t in o]
        if not same:
            cs, _ = points(U.read(blob).get_masters()[1], "g")
            out.fail("refuse/silent", f"masters drawn as {a} and {o} were saved; master 1 reads as {cs}")
        out.trace()


def run_components(_, out):
    """Components drawn per master keep the values of each master"""
    for masters in (2, 4, 16):
        for order in permutations(range(masters)) if masters < 5 else (range(masters), range(masters)[::-1]):
            data, g, b = build(masters)
            vfb = U.read(data, decompile=False)
            vfb["g"].entry.data["components"] = []
            out.state(repr((masters, order)))
            for m in order:
                p = vfb.get_masters()[m]["g"].getPointPen()
                p.addComponent("b", (1.0 + m, 0, 0, 0.5 * m, m * 3, -m))
                p.addComponent("b", (1.0, 0, 0, 1.0, 77, m))
                # The same scale in both directions in the first master only
                p.addComponent("b", (1.0 - 0.25 * m, 0, 0, 1.0 + 0.5 * m, m, m))
                out.trans()
            fresh = U.read(save(vfb))
            for m, view in enumerate(fresh.get_masters()):
                _, cp = points(view, "g")
                want = [(1.0 + m, 0, 0, 0.5 * m, m * 3, -m), (1.0, 0, 0, 1.0, 77, m), (1.0 - 0.25 * m, 0, 0, 1.0 + 0.5 * m, m, m)]
                out.eq(cp, [("b", w) for w in want],
                       "components", f"components of master {m}")  # fmt: skip
            out.trace()


CONTOUR = {
    # contours of the same number of points, open or closed
    "closed": [("line", (0, 0)), ("line", (10, 0)), ("line", (5, 8))],
    "open": [("move", (0, 0)), ("line", (10, 0)), ("line", (5, 8))],
    "curve": [("line", (0, 0)), (None, (10, 0)), ("qcurve", (5, 8))],
}


def put(view, contours, comps):
    p = view["g"].getPointPen()
    for c in contours:
        p.beginPath()
        for t, xy in CONTOUR[c]:
            p.addPoint(xy, t)
        p.endPath()
    for name in comps:
        p.addComponent(name, (1.0, 0, 0, 1.0, 3, 4))


def run_misfit(payload, out):
    """Masters with other contours, open contours, or other components"""
    a, lst = payload
    for other in lst:
        out.case = ("misfit", [a, [other]])
        out.state(repr((a, other)))
        for order in ((0, 1), (1, 0)):
            data, g, b = build(2)
            vfb = U.read(data, decompile=False)
            views = vfb.get_masters()
            vfb["g"].entry.data["components"] = []
            for m in order:
                views[m]["g"].clearContours()
                put(views[m], *(a, other)[m])
            what = f"masters drawn as {a} and {other} in the order {order}"
            # A master in which nothing was drawn takes part with nothing
            fits = [a[0] == other[0], a[1] == other[1] or not other[1]]
            try:
                blob = save(vfb)
            except Exception as x:
                if all(fits):
                    out.fail("misfit/refused", f"{what}: {type(x).__name__}: {x}")
                continue
            finally:
                out.trans()
            if not all(fits):
                out.fail("misfit/saved", f"{what} were saved as {[points(v, 'g') for v in U.read(blob).get_masters()]}")
        out.trace()


KINDS = {"misfit": run_misfit, "rounds": run_rounds, "subset": run_subset, "edit": run_edit, "refuse": run_refuse, "components": run_components}
