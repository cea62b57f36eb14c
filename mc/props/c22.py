"""Which glyphs the UFO has, in what order, and what is attached to them: code
points, mark colour, note, user data, background image, bitmaps."""
from itertools import combinations, product

from mc import ref as R
from mc import ufo as U
from mc.codec import gbitmap, gl, image

PID = "C22"
RULE = (
    "all glyph name lists (also repeated names), all code point lists, all mark hues, all subsets and orders of the "
    "records that accompany a glyph; a state is a glyph list or a set of records"
)
BOUNDS = {
    "quick": "name lists of up to 4 over 4 names with all repetitions; code point lists of up to 3 + 2; 256 hues; all subsets of 9 companions in two orders, 1 and 4 masters; companions in every master; bitmap lists over 4 sizes x 6 positions x 4 advances",
    "thorough": "name lists of up to 5 over 5 names; code point lists of up to 4 + 2; all orders of all subsets of up to 5 companions, 1 and 4 masters; the same bitmap lists",
}
CHUNK = 1
CASE_LIMIT = 200
NAMES = ["A", "B", "a.alt", "A#0", "\u00e9"]
CP = [0, 0x41, 0x20AC, 0xFFFF, 0x42]
CPX = [0x10000, 0x1F600, 0x43]


def cases(tier):
    n = 4 if tier == "quick" else 5
    for k in range(0, n + 1):
        for head in product(range(n), repeat=min(k, 1)):
            yield "names", [n, k, list(head)]
    for k in (11, 101, 255, 256, 257, 258, 300, 600):
        for names in (["A"] * k, ["A", "B"] * (k // 2), ["A"] * k + ["A#0", "B", "A#300"]):
            yield "list", names
    for a in range(0, 4 if tier == "quick" else 5):
        yield "unicodes", a
    yield "marks", None
    for m in (1, 2):
        yield "strikes", m
    from itertools import permutations

    idx = list(range(9))
    for k in range(0, 10):
        for sub in combinations(idx, k):
            orders = [sub, sub[::-1]]
            if tier == "thorough" and k <= 5:
                orders = list(permutations(sub))
            for lo in range(0, len(orders), 30):
                yield "companions", [list(o) for o in orders[lo : lo + 30]]


def run_names(payload, out):
    n, k, head = payload
    for tail in product(range(n), repeat=k - len(head)):
        names = [NAMES[i] for i in (*head, *tail)]
        out.case = ("names", [n, k, head])
        check_names(names, out)


def run_list(names, out):
    check_names(names, out)


def check_names(names, out):
    out.state(repr(names))
    glyphs = [gl(name=x, metrics=[(100 + i, 0)], nodes=U.contour(("line",) * (i % 3))) for i, x in enumerate(names)]
    ufos, ds = U.convert(U.font(glyphs))
    (ufo,) = ufos
    order = ufo.lib.get("public.glyphOrder", [])
    what = f"glyphs {names}"
    if len(set(order)) != len(names):
        out.fail("names/order", f"{what}: glyph order {order}")
        return
    if sorted(order) != sorted(ufo.keys()):
        out.fail("names/set", f"{what}: glyph order {order}, glyphs {sorted(ufo.keys())}")
    for i, (x, o) in enumerate(zip(names, order)):
        # a name that is taken gets a suffix
        taken = x in names[:i] + names[i + 1 :] or x in order[:i]
        if o != x and not (taken and o.startswith(x + "#")):
            out.fail("names/name", f"{what}: glyph {i} is called {o}")
        if ufo[o].width != 100 + i:
            out.fail("names/mixed", f"{what}: {o} has the width {ufo[o].width}")
        pts, _ = U.ufo_points(ufo[o])
        out.eq(len(pts[0]), 1 + i % 3, "names/outline", what)
        out.trans()
    out.trace()


def run_unicodes(a, out):
    glyphs, want = [], []
    for bmp in product(CP, repeat=a):
        for b in range(3):
            for sup in product(CPX, repeat=b):
                if len(set(bmp)) < len(bmp) or len(set(sup)) < len(sup):
                    continue
                recs = []
                if bmp:
                    recs.append((1250, b"".join(map(R.u16, bmp))))
                if sup:
                    recs.append((1253, b"".join(map(R.u32, sup))))
                glyphs.append((gl(name=f"g{len(glyphs)}"), recs))
                want.append(list(bmp) + list(sup))
                out.state(repr((bmp, sup)))
    for m in (1, 2):
        gs = [(dict(g, num_masters=m, metrics=g["metrics"] * m), r) for g, r in glyphs]
        ufos, _ = U.convert(U.font(gs, m))
        for ufo in ufos:
            for (g, _), w in zip(gs, want):
                out.eq(list(ufo[g["name"]].unicodes), w, "unicodes", f"code points of {g['name']}")
                out.trans()
            out.trace()


def hls(hue):
    """RGB of the hue at lightness 0.8, saturation 0.76"""
    l, s = 0.8, 0.76
    c = (1 - abs(2 * l - 1)) * s
    h = hue / 255 * 6
    x = c * (1 - abs(h % 2 - 1))
    m = l - c / 2
    r, g, b = [(c, x, 0), (x, c, 0), (0, c, x), (0, x, c), (x, 0, c), (c, 0, x), (c, x, 0)][int(h)]
    return [r + m, g + m, b + m, 1]


def run_marks(_, out):
    glyphs = [(gl(name=f"g{h}"), [(2012, R.u16(h))]) for h in range(256)] + [gl(name="none")]
    ufos, _ = U.convert(U.font(glyphs))
    for h in range(256):
        out.state(str(h))
        c = ufos[0][f"g{h}"].lib.get("public.markColor")
        try:
            got = [float(x) for x in c.split(",")]
            ok = len(got) == 4 and all(abs(a - b) <= 0.00006 for a, b in zip(got, hls(h)))
        except (AttributeError, ValueError):
            ok = False
        if not ok:
            out.fail("marks", f"hue {h}: implementation {c}, reference {hls(h)}")
        out.trans()
    if "public.markColor" in ufos[0]["none"].lib:
        out.fail("marks/none", "glyph without a mark has a mark color")
    out.trace()


def companions(i):
    iview, ienc = image(bytes(range(1, 13)), 20, 3, "macos", org=(3, -4))
    v1, e1 = gbitmap(bytes([0x80, 0, 0x40, 0, 0x20, 0]), 3, 3, "macos", ppm=11, org=(-1, 2), adv=(7, 8))
    v2, e2 = gbitmap(bytes([1, 2]), 16, 1, "macos", ppm=12, org=(2, -5))
    return [
        (1250, R.u16(0x41 + i)),
        (1253, R.u32(0x10041)),
        (2012, R.u16(100)),
        (2017, R.untext(" A note\r\non \u00e9 ")),
        (2015, R.untext(" user data\t")),
        (2007, ienc),
        (2013, R.num(2) + e1 + e2),
        U.gdef(dict(anchors=[dict(name="top", x=i, y=-i)])),
        (2008, R.num(0) + R.num(0)),
    ], iview, [v1, v2]


def strike(b):
    return dict(
        imageData=list(reversed(b["bitmap"]["data"])), bitDepth=1, horiAdvance=b["adv"][0], vertAdvance=b["adv"][1],
        width=b["size_pixels"][0], height=b["size_pixels"][1], horiBearingX=b["origin"][0],
        horiBearingY=b["size_pixels"][1] + b["origin"][1], ppemX=b["ppm"], ppemY=b["ppm"])  # fmt: skip


def run_strikes(m, out):
    """Lists of bitmaps of all sizes, positions and advance widths"""
    small = [
        gbitmap(bytes([37 * k + 11 * n & 255 for k in range((w + 15) // 16 * 2 * h)]), w, h, "macos", ppm=ppm, org=org, adv=adv)
        for n, ((w, h), org, (ppm, adv)) in enumerate(product(
            ((1, 1), (8, 1), (9, 3), (3, 20)), ((0, 0), (0, 3), (0, -3), (5, 0), (-5, 0), (-1, -9)),
            ((0, (0, 0)), (9, (0, 12)), (24, (12, 0)), (255, (300, -300)))))
    ]  # fmt: skip
    lists = [[]] + [[b] for b in small] + [small[i : i + 2] for i in range(0, len(small), 3)] + [small[::7], small[::-7], [small[3]] * 2, small]
    glyphs = []
    for i, lst in enumerate(lists):
        glyphs.append((gl(name=f"g{i}", num_masters=m), [(2013, R.num(len(lst)) + b"".join(e for _, e in lst))]))
        out.state(f"{m} {i}")
    glyphs.append(gl(name="none", num_masters=m))
    ufos, _ = U.convert(U.font(glyphs, m))
    for k, ufo in enumerate(ufos):
        for i, lst in enumerate(lists):
            got = U.plain(dict(ufo[f"g{i}"].lib)).get("com.fontlab.v5.bitmaps", [])
            out.eq(got, [strike(v) for v, _ in lst], "strikes", f"list {i} of {len(lst)} bitmaps, master {k}")
            out.trans()
        out.eq(dict(ufo["none"].lib), {}, "strikes/none", "glyph without bitmaps")
    out.trace()


def want_of(sub, i):
    _, iview, bms = companions(i)
    w = dict(unicodes=[], anchors=[], note=None, lib={})
    for k in sub:
        if k == 0:
            w["unicodes"].append(0x41 + i)
        elif k == 1:
            w["unicodes"].append(0x10041)
        elif k == 2:
            w["lib"]["public.markColor"] = "set"
        elif k == 3:
            w["note"] = " A note\r\non \u00e9 "
        elif k == 4:
            w["lib"]["com.fontlab.v5.userData"] = " user data\t"
        elif k == 5:
            w["lib"]["com.fontlab.v5.background"] = dict(
                origin=iview["origin"], size_units=iview["size_units"], size_pixels=iview["size_pixels"],
                bitmap=dict(data=iview["bitmap"]["data"]))  # fmt: skip
        elif k == 6:
            w["lib"]["com.fontlab.v5.bitmaps"] = [
                strike(b) for b in bms]
        elif k == 7:
            w["anchors"] = [dict(name="top", x=i, y=-i)]
    return w


DROP_MINIMAL = {2, 3, 5, 6}


def run_companions(orders, out):
    for m, minimal in ((1, False), (1, True), (4, False)):
        glyphs = []
        for i, sub in enumerate(orders):
            recs, _, _ = companions(i)
            glyphs.append((gl(name=f"g{i}", nodes=U.contour(("line",), m), num_masters=m), [recs[k] for k in sub]))
            glyphs.append(gl(name=f"x{i}", num_masters=m))
            out.state(repr(sub))
        ufos, _ = U.convert(U.font(glyphs, m), minimal=minimal)
        for (i, sub), (n, ufo) in product(enumerate(orders), enumerate(ufos)):
            out.case = ("companions", [sub])
            keep = [k for k in sub if not (minimal and k in DROP_MINIMAL)]
            for name, want in ((f"g{i}", want_of(keep, i)), (f"x{i}", want_of([], i))):
                g = ufo[name]
                lib = U.plain(dict(g.lib))
                if "public.markColor" in lib:
                    lib["public.markColor"] = "set"
                got = dict(unicodes=list(g.unicodes), anchors=U.plain(g.anchors), note=g.note, lib=lib)
                out.eq(got, want, "companions" if name[0] == "g" else "companions/next", f"glyph with the records {sub}, minimal={minimal}, master {n}")
                out.trans()
        out.trace()


KINDS = {"names": run_names, "list": run_list, "unicodes": run_unicodes, "marks": run_marks, "companions": run_companions, "strikes": run_strikes}
