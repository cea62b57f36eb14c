"""Anchors, guidelines (glyph and font level) and masks in each UFO master."""
from itertools import product
from math import atan2, degrees

from mc import ref as R
from mc import ufo as U
from mc.codec import V, gl
from mc.props.c16 import nodes_of, outline_shapes

PID = "C21"
RULE = (
    "all anchor lists over names (also absent and repeated) with per-master positions; all guide lists over "
    "positions and slopes with all property lists; all mask outlines with and without mask metrics; a state is a "
    "glyph with its accompanying records"
)
BOUNDS = {
    "quick": "up to 4 anchors over 5 names; up to 3+3 guides, every slope -20000..20000 in steps of 97 per 10000; up to 2+2 guide properties; mask contours of up to 3 segments, with widths and without; up to 300 anchors; tangents at the limits, different in two masters; 1, 2, 4 masters",
    "thorough": "up to 5 anchors; slopes in steps of 1; masks of up to 5 segments, pairs of up to 2",
}
CHUNK = 1
CASE_LIMIT = 200
NAMES = ["top", "_top", None, "a b", "\u00e4"]


def cases(tier):
    for m in (1, 2, 4, 16):
        for k in range(0, 5 if tier == "quick" else 6):
            seqs = [list(x) for x in product(range(len(NAMES)), repeat=k)]
            for lo in range(0, len(seqs), 150):
                yield "anchors", [m, seqs[lo : lo + 150]]
        yield "anchors", [m, [[(i * i + n) % len(NAMES) for i in range(n)] for n in (20, 40, 41, 60, 130, 300)]]
    step = 97 if tier == "quick" else 1
    sl = list(range(-20000, 20001, step)) + [0, 1, -1, 10000, -10000, 2679, 5774, 100000, -1000000, 10**8, -(10**8), 2**31 - 1, 1 - 2**31]
    for lo in range(0, len(sl), 400):
        yield "slopes", sl[lo : lo + 400]
    for m in (1, 2, 4, 16):
        for nh, nv in product(range(4), repeat=2):
            yield "guides", [m, nh, nv]
    lst = list(outline_shapes(3 if tier == "quick" else 5))
    small = list(outline_shapes(1 if tier == "quick" else 2))
    lst += [a + b for a, b in product(small, repeat=2)]
    for m in (1, 2, 4, 16):
        for lo in range(0, len(lst), 100):
            yield "masks", [m, lst[lo : lo + 100]]


def run_anchors(payload, out):
    m, seqs = payload
    for mm, step in [(mm, st) for mm in ((False, True) if m == 1 else (True,)) for st in (1, 0)]:
        glyphs, want = [], []
        for i, sq in enumerate(seqs):
            # anchors at different positions, or all at the same
            pos = [([V[(i + j * step + k) % 15] + k for k in range(m)], [V[(i * 2 + j * step) % 15] - k for k in range(m)]) for j, _ in enumerate(sq)]
            an = []
            for (x, y), n in zip(pos, sq):
                a = dict(x=x[0], y=y[0])
                if NAMES[n]:
                    a["name"] = NAMES[n]
                an.append(a)
            comp = [U.gdef(dict(anchors=an, **({"glyph_class": "base"} if i % 2 else {})))]
            if mm:
                comp.append(U.anchors_mm([dict(x=x, y=y) for x, y in pos], m))
            glyphs.append((gl(name=f"g{i}", num_masters=m), comp))
            w = []
            for k in range(m):
                w.append([dict(x=x[k], y=y[k], **({"name": NAMES[n]} if NAMES[n] else {})) for (x, y), n in zip(pos, sq)])
            want.append(w)
            out.state(repr((m, mm, sq, pos)))
        glyphs.append(gl(name="last", num_masters=m))
        for minimal in (False, True):
            ufos, _ = U.convert(U.font(glyphs, m), minimal=minimal)
            for k, ufo in enumerate(ufos):
                for i in range(len(seqs)):
                    out.eq(U.plain(ufo[f"g{i}"].anchors), want[i][k], "anchors", f"anchors of master {k}")
                    out.trans()
                out.eq(U.plain(ufo["last"].anchors), [], "anchors/other", "glyph without anchors")
                out.trace()


def close(got, want, out, fp, what):
    """guidelines; angles within the two decimals that are written"""
    got = U.plain(got)
    ok = len(got) == len(want)
    for g, w in zip(got, want):
        a, b = g.get("angle"), w["angle"]
        ok &= a is not None and 0 <= a <= 360 and min(abs(a - b), abs(abs(a - b) - 360)) < 0.0051
        ok &= {k: v for k, v in g.items() if k != "angle"} == {k: v for k, v in w.items() if k != "angle"}
    if not ok:
        out.fail(fp, f"{what}: implementation {got}, reference {want}")


def ref_guides(g, m, props=None):
    """g: {"h": [[(pos, tan) per master]], ...}; a guide leaves its position in
    direction (10000, tan) (horizontal) or (tan, 10000) (vertical)"""
    res = []
    for d in "hv":
        for i, mg in enumerate(g[d]):
            pos, tan = mg[m]
            r = dict(x=0, y=pos, angle=degrees(atan2(tan, 10000)) % 360) if d == "h" else dict(
                x=pos, y=0, angle=degrees(atan2(10000, tan)) % 360)  # fmt: skip
            for idx, color, name in (props or {}).get(d, []):
                if idx == i + 1:
                    if color is not None:
                        c = [color & 255, color >> 8 & 255, color >> 16]
                        r["color"] = ",".join("%0.4f" % (v / 255) for v in c) + ",1"
                    if name:
                        r["name"] = name
            res.append(r)
    return res


def canon(gs):
    for g in gs:
        c = g.get("color")
        if c:
            # 0.5000 or 0.5: UFO colors are compared as numbers
            g["color"] = ",".join("%.4f" % float(v) for v in c.split(","))
    return gs


def guides_eq(ufo_guides, want, out, fp, what):
    close(canon(U.plain(ufo_guides)), canon([dict(w) for w in want]), out, fp, what)


def run_slopes(sl, out):
    for t in sl:
        out.state(str(t))
    for m in (1, 2):
        # the slopes of the masters differ
        g = {
            "h": [[(3 * i + k, sl[(i + k) % len(sl)]) for k in range(m)] for i in range(len(sl))],
            "v": [[(-i - k, -sl[(i + k) % len(sl)]) for k in range(m)] for i in range(len(sl))],
        }
        glyphs = [gl(name="g", guides=g, num_masters=m), gl(name="h", num_masters=m)]
        ufos, _ = U.convert(U.font(glyphs, m, before=[(1294, R.guides(g, m))]))
        for k, ufo in enumerate(ufos):
            guides_eq(ufo["g"].guidelines, ref_guides(g, k), out, "slopes/glyph", "glyph guides")
            guides_eq(ufo.info.guidelines or [], ref_guides(g, k), out, "slopes/font", "font guides")
            guides_eq(ufo["h"].guidelines, [], out, "slopes/other", "glyph without guides")
            out.trans(2 * len(sl))
    out.trace()


PROPS = [(None, ""), (0x0000FF, "n"), (0xFF8001, ""), (None, "Name")]


def run_guides(payload, out):
    """All property lists (indices into the guides, also beyond the end)"""
    m, nh, nv = payload
    from mc.codec import guide_props

    g = {
        d: [[(V[(i + k) % 15] * (k + 1), (i + 1) * 500 - k * 77) for k in range(m)] for i in range(n)]
        for d, n in (("h", nh), ("v", nv))
    }
    hl = [[]] + [[(i, *p)] for i in range(1, nh + 2) for p in PROPS] + [
        [(i, *p), (j, *q)] for i in range(1, nh + 1) for j in range(i + 1, nh + 2) for p, q in product(PROPS[1:3], PROPS[1:])
    ]
    vl = [[]] + [[(i, *p)] for i in range(1, nv + 2) for p in PROPS[1:]]
    glyphs, props = [], []
    for i, (h, v) in enumerate(product(hl, vl)):
        _, b = guide_props(h, v)
        pr = {"h": h, "v": v}
        props.append(pr)
        glyphs.append((gl(name=f"g{i}", guides=g, num_masters=m), [(2031, b)]))
        out.state(repr((m, nh, nv, pr)))
    glyphs.append(gl(name="noprops", guides=g, num_masters=m))
    for fp in (props[0], props[-1], props[len(props) // 2]):
        _, b = guide_props(fp["h"], fp["v"])
        ufos, _ = U.convert(U.font(glyphs, m, before=[(1294, R.guides(g, m)), (1296, b)]))
        for k, ufo in enumerate(ufos):
            for i, pr in enumerate(props):
                guides_eq(ufo[f"g{i}"].guidelines, ref_guides(g, k, pr), out, "guides/glyph", f"{pr}, master {k}")
                out.trans()
            guides_eq(ufo["noprops"].guidelines, ref_guides(g, k), out, "guides/noprops", f"master {k}")
            guides_eq(ufo.info.guidelines or [], ref_guides(g, k, fp), out, "guides/font", f"{fp}, master {k}")
            out.trace()


def run_masks(payload, out):
    m, shapes = payload
    glyphs = []
    for i, sh in enumerate(shapes):
        mm = ([(100 + i, 7), (200, i), (-3, 4), (9, 9)] + [(300 + k, -k) for k in range(12)])[:m]
        if i % 4 == 3:
            # no width or height in some of the masters
            mm = ([(100, 0), (0, 5), (0, 0), (7, 0)] * 4)[i // 4 % 4 :][:m] + [(0, 0)] * max(0, m - 16 + i // 4 % 4)
        rec = [U.mask(nodes_of(sh, m), m)]
        if i % 2:
            rec += U.mask_metrics(mm)
        own = [("line",)] if i % 3 else []
        g = gl(name=f"g{i}", nodes=nodes_of([(own[0], "gap")], m) if own else [], num_masters=m)
        if own and i % 3 == 2:
            # the labels of hinted points don't belong to the points of the mask
            g["tth"] = [dict(cmd="AlignH", params=dict(pt=p, align=0)) for p in range(len(g["nodes"]))]
        glyphs.append((g, rec, sh, mm if i % 2 else g["metrics"]))
        out.state(repr((m, sh, i % 6)))
    last = gl(name="nomask", nodes=nodes_of([(("line",), "gap")], m), num_masters=m)
    data = U.font([(g, rec) for g, rec, _, _ in glyphs] + [last], m)
    ufos, _ = U.convert(data)
    for k, ufo in enumerate(ufos):
        layer = ufo.layers["public.background"] if "public.background" in ufo.layers.keys() else {}
        names = []
        for g, _, sh, mm in glyphs:
            if sh:
                names.append(g["name"])
            if g["name"] not in layer:
                if sh:
                    out.fail("masks/missing", f"mask {sh} is not in the background layer")
                continue
            bg = layer[g["name"]]
            pts, comps = U.ufo_points(bg)
            want = [[(t, s, None, p) for t, s, _, p in c] for c in U.ref_points(nodes_of(sh, m), k)]
            out.eq(pts, want, "masks/points", f"mask {sh}, master {k}")
            out.eq(comps, [], "masks/components", "")
            out.eq((bg.width, bg.height), tuple(mm[k]), "masks/metrics", f"mask {sh}, master {k}")
            pts, _ = U.ufo_points(ufo[g["name"]])
            out.eq(len(pts), sum(n["type"] == "move" for n in g["nodes"]), "masks/foreground", "contours of the glyph")
            out.trans()
        out.eq(sorted(x.name for x in layer) if layer else [], sorted(names), "masks/layer", f"glyphs in the mask layer, master {k}")
        out.trace()


KINDS = {"anchors": run_anchors, "slopes": run_slopes, "guides": run_guides, "masks": run_masks}
