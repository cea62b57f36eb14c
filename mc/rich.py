"""A font that has something of everything, built of sections that can be left
out, for the checks of whole conversions."""
from mc import ref as R
from mc import ufo as U
from mc.codec import TTINFO, gbitmap, gl, guide_props, image, ttinfo, tt_base

SECTIONS = (
    "info", "ps", "tt", "groups", "fea", "guides", "mask", "images", "mark", "note", "lib",
    "anchors", "hints", "comps", "unicode", "dup", "kern", "instances", "encoding",
)  # fmt: skip

OUTLINES = {
    "A": ("line", "curve"),
    "B": ("qcurve", "line", "qcurve"),
    "C": ("line", "line", "line"),
}


def tt_rec():
    d = {k: 0 if isinstance(v, int) else v for k, v in tt_base().items()}
    d[0x54] = (0, 0)
    for k, n in TTINFO:
        if n in VALUES:
            d[k] = VALUES[n]
    return b"".join(ttinfo(d)[1]) + b"\x32"


VALUES = {"os2_us_width_class": 5, "head_lowest_rec_ppem": 9, "os2_us_win_ascent": 900, "os2_us_win_descent": 250, "os2_s_typo_ascender": 750}


def nr(pid, eid, lid, nid, text):
    u = text.encode("utf-16-be") if pid != 1 else text.encode("mac_roman")
    chars = [int.from_bytes(u[i : i + 2], "big") for i in range(0, len(u), 2)] if pid != 1 else list(u)
    return R.nums([pid, eid, lid, nid, len(chars)]) + R.nums(chars)


def rich(m=1, skip=(), platform="macos", glyphs=("A", "B", "C"), kern=(10, -20), extra=()):
    """The bytes of the font; m masters, without the sections in skip"""
    on = lambda x: x not in skip  # noqa: E731
    before, gs, after = [], [], []
    if on("encoding"):
        before += [(1500, R.u16(65) + R.untext("A")), (1501, R.u16(66) + R.untext("B"))]
    before.append(U.s(1026, "RichFont-Bold"))
    if on("info"):
        before += [
            U.s(1025, "RichFont Bold"), U.s(1024, "Rich"), U.s(1027, "Rich Font"), U.s(1065, "Normal"), U.u(1048, 700),
            U.s(1028, "Bold"), U.s(1127, "Bold"), U.s(1137, "Bold"), U.s(1037, "\u00a9 2024 \u20ac"), U.s(1062, "D\u00e9"),
            U.s(1063, "https://x.y/?a=1&b=2"), U.s(1121, "LUCA"), U.s(1140, "Sample <text>"), U.u(1132, 2024),
            U.u(1130, 1), U.u(1131, 2), U.u(1135, 1000), U.u(1267, 32), (1029, R.dbl(-12.5)), (1030, R.i16(-100)),
            (1031, R.u16(50)), (1118, bytes([2, 11, 6, 3, 5, 4, 5, 2, 2, 4])), U.u(1034, 0), U.s(1066, "A"),
            (1138, R.num(2) + nr(3, 1, 1033, 1, "R\u00efch") + nr(1, 0, 0, 2, "Bold")),
        ]  # fmt: skip
    if on("note"):
        before.append(U.s(2025, "Font note\r\nline 2"))
    if on("lib"):
        before.append(U.s(2016, "font data"))
    if on("tt"):
        before += [(1264, tt_rec()), (1261, bytes([0, 10, 0, 20])), (1263, bytes([0x2D])), (1262, bytes([0xB0, 1, 0x21]))]
        before += U.tt_records(
            {"ttStemsV": [(80, "V: 80", (0, 10, 20, 30, 40, 50))], "ttStemsH": [(90, "H", (2, 12, 22, 32, 42, 52))]},
            {"ttZonesT": [(500, 10, "xh")], "ttZonesB": [(0, -10, "base")]},
            [(0, 9, 1)],
            {1272: 7, 1274: 40, 1275: 90},
        )
    if on("groups"):
        before += [
            (2024, R.num(1) + R.pstr(".mtrx1") + R.nums([1, 2, 0])),
            (2026, R.num(2) + R.pstr("_left") + R.nums([1024, 0]) + R.pstr("_right") + R.nums([2048, 0])),
        ]
    if on("fea"):
        before.append((1276, R.untext("feature liga {\r\n  sub A B by C;\r\n} liga;\r\n")))
    if on("groups"):
        before += [U.s(1277, "_left: A' B"), U.s(1277, "_right: C'"), U.s(1277, "caps: A B missing"), U.s(1277, ".mtrx1: A B C")]
    if on("instances") and m > 1:
        before.append((1254, R.num(1) + R.pstr("Light") + R.nums([3000000] * 4)))
    if on("guides"):
        after.append((1294, R.guides({"h": [[(100 + k, 0) for k in range(m)]], "v": [[(-k, 2679) for k in range(m)]]}, m)))
        after.append((1296, guide_props([(1, 0x123456, "gh")], [])[1]))
    if on("mask"):
        after.append((1295, R.outlines(U.contour(("line", "line"), m), m)))
    names = list(glyphs) + ([glyphs[0]] if on("dup") else [])
    for i, name in enumerate(names):
        kw = dict(name=name, num_masters=m, nodes=U.contour(OUTLINES.get(name, ("line",)), m, set(range(m)) if name == "A" else None, base=i * 40))
        kw["metrics"] = [(500 + 10 * i + k, k) for k in range(m)]
        comp = []
        if on("kern") and i < 3:
            kw["kerning"] = {(i + 1) % 3: [v + k for k in range(m) for v in [kern[i % 2]]]}
        if on("guides"):
            kw["guides"] = {"h": [[(i * 10 + k, -1000) for k in range(m)]], "v": []}
        if on("hints"):
            kw["hints"] = {
                "h": [[dict(pos=10 * i + k, width=20) for k in range(m)], [dict(pos=300 + k, width=21) for k in range(m)]],
                "v": [[dict(pos=5 + k, width=80 + i) for k in range(m)]],
                "hintmasks": [("h", 0), ("v", 0), ("r", 1), ("h", 1)] if i == 0 else [],
            }
            comp.append((2008, R.num(0) + R.num(1) + R.nums([0, 1])))
        if on("tt") and i < 2:
            kw["tth"] = [
                dict(cmd="AlignBottom", params=dict(pt=0, zone=0)),
                dict(cmd="SingleLinkV", params=dict(pt1=0, pt2=1, stem=0, align=0)),
                dict(cmd="MDeltaH", params=dict(pt=1, shift=8, ppm1=9, ppm2=12)),
            ]
        if on("unicode"):
            comp += [(1250, R.u16(0x41 + i)), (1253, R.u32(0x10041 + i))]
        if on("images"):
            bpr = bytes(range(1 + i, 13 + i))
            comp.append((2007, image(bpr, 20, 3, platform, org=(3, -4))[1]))
            comp.append((2013, R.num(1) + gbitmap(bytes([0x80, i] * 3), 3, 3, platform, ppm=11, org=(-1, 2), adv=(7, 8))[1]))
        if on("mask"):
            comp += [U.mask(U.contour(("curve", "line"), m, base=i), m)] + U.mask_metrics([(400 + k, i) for k in range(m)])
        if on("mark"):
            comp.append((2012, R.u16(40 * i + 10)))
        if on("lib"):
            comp.append((2015, R.untext(f"data of {name}")))
        if on("note"):
            comp.append((2017, R.untext(f"note of {name}\r\n\u00e9")))
        if on("anchors"):
            comp.append(U.gdef(dict(anchors=[dict(name="top", x=i, y=700)], glyph_class="base")))
            comp.append((2020, R.num(1) + R.nums([100 * i, -1])))
            comp.append(U.anchors_mm([dict(x=[i + k for k in range(m)], y=[700 - k for k in range(m)])], m))
        if on("guides"):
            comp.append((2031, guide_props([(1, None, f"g{i}")], [])[1]))
        gs.append((gl(**kw), comp))
    if on("comps"):
        gs.append(
            (
                gl(
                    name="comp", num_masters=m, metrics=[(700 + k, 0) for k in range(m)],
                    components=[
                        dict(gid=0, offsetX=[k for k in range(m)], offsetY=[2] * m, scaleX=[1.0] * m, scaleY=[1.0] * m),
                        dict(gid=1, offsetX=[300 + k for k in range(m)], offsetY=[-2] * m, scaleX=[0.5] * m, scaleY=[-1.0] * m),
                    ],
                ),
                [(1250, R.u16(0xC5))],
            )
        )  # fmt: skip
    ps = None
    if on("ps"):
        before += [(1530, R.u16(4)), (1531, R.u16(2)), (1534, R.u16(1)), (1535, R.u16(1))]
        ps = [dict(blue_values=[-10 - k, 0, 500, 510] + [0] * 10, other_blues=[-210, -200 + k] + [0] * 8, ascender=700 + k, stem_snap_h=[80 + k] + [0] * 11) for k in range(m)]
    return U.font(gs, masters=m, before=before, after=list(after) + list(extra), platform=platform, ps=ps)


GLOBAL_AFTER = (1294, 1296, 1295)
