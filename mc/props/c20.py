"""Glyph widths, heights and components in each UFO master."""
from itertools import product

from mc import ufo as U
from mc.codec import VL, gl

PID = "C20"
RULE = (
    "all component lists over a small alphabet of references, offsets and scales that differ between masters; all "
    "width/height boundary pairs; base glyphs before and after the composite, nested and repeated; a state is a glyph"
)
BOUNDS = {
    "quick": "single components: 3 bases x 5x5 offsets x 8x8 scales; lists of 2-3 components over 6; 1, 2, 4, 8 masters; all metric pairs over 21 values",
    "thorough": "single components: 4 bases x 9x9 offsets x 12x12 scales; lists of up to 4 components over 6",
}
CHUNK = 1
CASE_LIMIT = 200

SCALES = [1.0, -1.0, 0.5, 0.0, 2.0, 1 / 3, 0.9999999999999999, 1.0000000000000002, 1e-9, 0.1 + 0.2, 123.456, -0.0]
OFF = [0, 1, -1, 107, -108, 1131, -1132, 40000, -32768]
PROTO = [(0, 0, 0, 1.0, 1.0), (0, 10, -5, 0.5, 1.0), (1, 0, 0, 1.0, 1.0), (2, 3, 4, -1.0, 1.0), (3, -9, 8, 1.0, 1 / 3), (4, 1, 1, 1.0, 1.0)]


def cases(tier):
    so, ss = (OFF[:5], SCALES[:8]) if tier == "quick" else (OFF, SCALES)
    for m in (1, 2, 4, 8, 16):
        for gid in range(3 if tier == "quick" else 4):
            for dx in so:
                yield "single", [m, gid, dx, len(so), len(ss)]
        for k in (2, 3) if tier == "quick" else (2, 3, 4):
            if k == 4 and m > 2:
                continue
            for a in range(len(PROTO)):
                yield "lists", [m, k, a]
        for lo in range(0, len(VL)):
            yield "metrics", [m, lo]


def comp(gid, dx, dy, sx, sy, m):
    """Values that differ between the masters"""
    return dict(
        gid=gid,
        offsetX=[dx + 7 * k for k in range(m)],
        offsetY=[dy - 3 * k for k in range(m)],
        scaleX=[sx if k == 0 else sx * (k + 1) for k in range(m)],
        scaleY=[sy if k == 0 else sy - k for k in range(m)],
    )


def font_of(lists, m):
    """bases on both sides of the composites; gid 0, 1 before, 2.. after"""
    x = gl(name="x", nodes=U.contour(("line", "line"), m), num_masters=m)
    y = gl(name="y.alt", nodes=[], num_masters=m)
    z = gl(name="z", nodes=U.contour(("line", "curve"), m), num_masters=m)
    n = len(lists)
    ids = {0: 0, 1: 1, 2: n + 2, 3: n + 3, 4: 2}
    comps = []
    for i, l in enumerate(lists):
        comps.append(gl(name=f"c{i}", nodes=U.contour(("line",), m) if i % 3 == 0 else [], num_masters=m,
                        components=[comp(ids[g], dx, dy, sx, sy, m) for g, dx, dy, sx, sy in l]))  # fmt: skip
    last = gl(name="nest", components=[comp(2, 1, 2, 1.0, 1.0, m)], num_masters=m)
    return [x, y, *comps, z, last]


def check(lists, m, out, kind):
    glyphs = font_of(lists, m)
    order = [g["name"] for g in glyphs]
    ufos, _ = U.convert(U.font(glyphs, m))
    out.eq(len(ufos), m, f"{kind}/masters", "UFO masters")
    for k, ufo in enumerate(ufos):
        for g in glyphs:
            pts, comps = U.ufo_points(ufo[g["name"]])
            want = U.ref_components(g.get("components"), k, order)
            out.eq(comps, want, f"{kind}/components", f"{g['name']}, master {k}")
            out.eq(len(pts), sum(n["type"] == "move" for n in g["nodes"]), f"{kind}/contours", g["name"])
            u = ufo[g["name"]]
            out.eq((u.width, u.height), tuple(g["metrics"][k]), f"{kind}/metrics", f"{g['name']}, master {k}")
            # whole numbers are integers, so that saving does not change types
            for _, t in comps:
                if any(isinstance(v, float) and v.is_integer() for v in t):
                    out.fail(f"{kind}/type", f"{g['name']}: {t}")
            out.trans()
        out.trace()


def run_single(payload, out):
    m, gid, dx, no, ns = payload
    lists = [
        [(gid, dx, dy, sx, sy)] for dy in OFF[:no] for sx, sy in product(SCALES[:ns], repeat=2)
    ]
    for l in lists:
        out.state(repr((m, l)))
    check(lists, m, out, "single")


def run_lists(payload, out):
    m, k, a = payload
    # gid 4 is the first composite itself: a reference to another composite
    lists = [[PROTO[0]]] + [[PROTO[a], *t] for t in product(PROTO, repeat=k - 1)]
    for l in lists:
        out.state(repr((m, l)))
    check(lists, m, out, "lists")


def run_metrics(payload, out):
    m, i = payload
    glyphs = []
    for j in range(len(VL)):
        mt = [(VL[(i + k) % len(VL)], VL[(j + 2 * k) % len(VL)]) for k in range(m)]
        glyphs.append(gl(name=f"g{j}", metrics=mt, num_masters=m, nodes=U.contour(("line",), m) if j % 2 else []))
        out.state(repr(mt))
    for minimal in (False, True):
        ufos, _ = U.convert(U.font(glyphs, m), minimal=minimal)
        for k, ufo in enumerate(ufos):
            for g in glyphs:
                u = ufo[g["name"]]
                out.eq((u.width, u.height), tuple(g["metrics"][k]), "metrics", f"{g['metrics']}, master {k}")
                out.trans()
            out.trace()


KINDS = {"single": run_single, "lists": run_lists, "metrics": run_metrics}
