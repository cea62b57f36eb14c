"""vfbcu2qu: the written font has the outlines of the input as quadratic
curves, within the tolerance, and is otherwise the input."""
from itertools import product

from mc import cli
from mc import ref as R
from mc import ufo as U
from mc.codec import gl, node
from mc.core import DATA, samples, short
from mc.props.c29 import entries_of
from mc.rich import SECTIONS, rich

PID = "C34"
RULE = (
    "all contours with up to the stated number of segments of all types x closing points x open/closed, in 1, 2 and 4 masters; all cubic segments over a "
    "grid of control points; pairs of contours; units per em x tolerances; fonts with a bit of everything with sections left out; all combinations "
    "of output arguments, existing output and overwriting; a state is a font with a tolerance"
)
BOUNDS = {
    "quick": "up to 5 segments of 3 types, all sets of closing points in 1, 2, 4 masters; 10^2 control points x 4 end points x 5 tolerances; 4 x 4 unit/tolerance pairs; 7 outputs with names of several dots, to the input, over a file; 19 sections left out",
    "thorough": "up to 7 segments; 14^2 control points; pairs of sections left out",
}
ASSUMPTIONS = [
    "the splines are those of fontTools' curves_to_quadratic for all masters of a segment; their distance from the curve is also measured",
    "mask outlines and TrueType hinting stay as they are",
]
CHUNK = 1
CASE_LIMIT = 300


def cases(tier):
    q = tier == "quick"
    for m in (1, 2, 4):
        for n in range(0, 6 if q else 8):
            for open_ in (False, True):
                if n < 3:
                    yield "shapes", [m, n, open_, []]
                else:
                    for t in product(("line", "curve", "qcurve"), repeat=n - 2 if n < 6 else n - 3):
                        yield "shapes", [m, n, open_, list(t)]
    for end in range(len(ENDS)):
        for tol in range(len(TOLS)):
            yield "grid", [end, tol, 10 if q else 14]
    for m in (1, 2, 4, 16):
        yield "pairs", m
    yield "units", None
    for m in (1, 2, 4, 16):
        yield "rich", [m, []]
    for i, s in enumerate(SECTIONS):
        for m in (1, 2):
            yield "rich", [m, [s]]
        if not q:
            for s2 in SECTIONS[:i]:
                yield "rich", [2, [s, s2]]
    for m in (1, 2):
        for o in range(len(OUT)):
            yield "paths", [m, o]
    yield "nothing", None
    for name, size in samples():
        if size < 30000:
            yield "sample", name


# ------------------------------------------------------------------ reference


def segments(nodes, m):
    """[(open, start, [(kind, points)])] of the contours of master m; a kind is
    line, cubic or quad, its points end with the on-curve point"""
    res = []
    offs = None

    def end():
        nonlocal offs
        if res and offs:
            res[-1][2].append(("quad", tuple(offs + [res[-1][1]])))
        offs = []

    for n in nodes:
        p = [tuple(x) for x in n["points"][m]]
        t = n["type"]
        if t == "move":
            end()
            res.append((bool(n["flags"] & 8), p[0], []))
        elif t == "qcurve":
            offs.append(p[0])
        elif offs:
            assert t == "line"
            res[-1][2].append(("quad", tuple(offs + [p[0]])))
            offs = []
        elif t == "line":
            res[-1][2].append(("line", (p[0],)))
        else:
            res[-1][2].append(("cubic", (p[1], p[2], p[0])))
    end()
    return res


def rounded(p):
    return tuple(round(c) for c in p)


def converted(nodes, masters, tol):
    """The expected contours per master, and per segment the cubic it stands for"""
    from fontTools.cu2qu import curves_to_quadratic

    per = [segments(nodes, m) for m in range(masters)]
    res = [[] for _ in range(masters)]
    for ci in range(len(per[0])):
        cs = [p[ci] for p in per]
        segs = [[] for _ in range(masters)]
        pos = [c[1] for c in cs]
        for si in range(len(cs[0][2])):
            ss = [c[2][si] for c in cs]
            kind = ss[0][0]
            if kind == "cubic":
                cubics = [[p, *s[1]] for p, s in zip(pos, ss)]
                splines = curves_to_quadratic(cubics, [tol] * masters, True)
                for k in range(masters):
                    segs[k].append(("quad", tuple(splines[k][1:]), tuple(map(tuple, cubics[k]))))
            else:
                for k in range(masters):
                    segs[k].append((kind, ss[k][1], None))
            pos = [s[1][-1] for s in ss]
        for k in range(masters):
            res[k].append((cs[k][0], cs[k][1], segs[k]))
    return res


def backwards(contour):
    """The reversed contour as a list of (kind, start, off-curve points, end, cubic)"""
    open_, start, segs = contour
    fwd = []
    pos = start
    for kind, pts, cubic in segs:
        fwd.append((kind, pos, tuple(rounded(p) for p in pts[:-1]), pts[-1], cubic))
        pos = pts[-1]
    if not open_ and pos != start:
        fwd.append(("line", pos, (), start, None))
    return [(k, rounded(b), o[::-1], rounded(a), c and c[::-1]) for k, a, o, b, c in reversed(fwd)]


def steps(contour):
    open_, start, segs = contour
    res = []
    pos = start
    for kind, pts in segs:
        res.append((kind, pos, pts[:-1], pts[-1]))
        pos = pts[-1]
    if not open_ and pos != start:
        res.append(("line", pos, (), start))
    return res


def same_cycle(a, b):
    """Contours are the same up to lines of length 0 and the kind of closing"""
    drop = lambda l: [x for x in l if not (x[0] == "line" and x[1] == x[3])]  # noqa: E731
    a, b = drop(a), drop(b)
    if len(a) != len(b):
        return None
    for i in range(max(len(a), 1)):
        r = a[i:] + a[:i]
        if r == b:
            return i
    return None


def distance(quads, cubic):
    """The largest distance of the spline and the cubic at the same parameter"""
    start, offs, end = quads
    on = [start] + [((a[0] + b[0]) / 2, (a[1] + b[1]) / 2) for a, b in zip(offs, offs[1:])] + [end]
    n = len(offs)
    worst = 0
    for i in range(n):
        a, o, b = on[i], offs[i], on[i + 1]
        for j in range(9):
            t = j / 8
            x, y = ((1 - t) ** 2 * a[c] + 2 * t * (1 - t) * o[c] + t * t * b[c] for c in (0, 1))
            s = (i + t) / n
            cx, cy = ((1 - s) ** 3 * cubic[0][c] + 3 * s * (1 - s) ** 2 * cubic[1][c] + 3 * s * s * (1 - s) * cubic[2][c] + s**3 * cubic[3][c] for c in (0, 1))
            worst = max(worst, ((x - cx) ** 2 + (y - cy) ** 2) ** 0.5)
    return worst


def check_glyph(before, after, masters, tol, out, what):
    for k in sorted(set(before) | set(after)):
        if k in ("nodes", "hints"):
            continue
        if before.get(k) != after.get(k):
            out.fail(f"glyph/{k}", f"{what}: {short(before.get(k))} became {short(after.get(k))}")
    old, new = before.get("nodes") or [], after.get("nodes") or []
    if not old:
        if new or before.get("hints") != after.get("hints"):
            out.fail("glyph/empty", f"{what}: a glyph without contours got {short(new)}, hints {short(after.get('hints'))}")
        return
    if any(n["type"] == "curve" for n in new):
        out.fail("glyph/cubic", f"{what}: {short(new)}")
        return
    if any(len(n["points"]) != masters for n in new):
        out.fail("glyph/masters", f"{what}: {short(new)}")
        return
    if any(after.get("hints", {}).get(k) for k in ("h", "v", "hintmasks")):
        out.fail("glyph/hints", f"{what}: PostScript hints are left: {after['hints']}")
    want = converted(old, masters, tol)
    for m in range(masters):
        got = segments(new, m)
        if len(got) != len(want[m]):
            out.fail("outline/contours", f"{what}: master {m} has {len(got)} contours instead of {len(want[m])}")
            return
        for g, w in zip(got, want[m]):
            back = backwards(w)
            gs = steps(g)
            if g[0] != w[0] and w[2]:  # (the UFO pens have no closed single points)
                out.fail("outline/open", f"{what}: {short(g)} of {short(w)}")
                continue
            plain = [x[:4] for x in back]
            if g[0]:
                drop = lambda l: [x for x in l if not (x[0] == "line" and x[1] == x[3])]  # noqa: E731
                ok = drop(gs) == drop(plain)
            else:
                ok = same_cycle(gs, plain) is not None
                if ok and g[1] != rounded(w[1]):
                    out.fail("outline/start", f"{what}: master {m} starts at {g[1]} instead of {w[1]}")
            if not ok:
                out.fail("outline/points", f"{what}: master {m} {short(gs)}, expected {short(plain)}")
                continue
            for kind, a, o, b, c in back:
                if c and o:
                    d = distance((a, o, b), c)
                    if d > tol + 0.75:
                        out.fail("outline/tolerance", f"{what}: {o} is {d:.2f} from {c}, tolerance {tol}")
                    out.trans()


def records(data):
    # (feature code is written with LF line ends)
    return [(i, p.replace(b"\r\n", b"\n") if i == 1276 else p) for i, p in entries_of(data) if i not in (2001, 2008)]


def glyphs(data):
    v = U.read(data)
    return [U.plain(e.data) for e in v.entries if e.id == 2001]


def check_font(data, got, masters, tol, out, what):
    a, b = records(data), records(got)
    if a != b:
        out.fail("font/records", f"{what}: {short([x for x in a if x not in b])} became {short([x for x in b if x not in a])}")
    seq = lambda d: [i for i, _ in entries_of(d) if i != 2008]  # noqa: E731
    if seq(data) != seq(got):
        out.fail("font/order", f"{what}: {short(seq(got))}")
    # links refer to nodes; the nodes of converted glyphs have changed
    nodes = [bool(g.get("nodes")) for g in glyphs(got)]
    k = -1
    for i, _ in entries_of(got):
        k += i == 2001
        if i == 2008 and k >= 0 and nodes[k]:
            out.fail("glyph/links", f"{what}: the links of glyph {k} are left")
    gs, hs = glyphs(data), glyphs(got)
    for g, h in zip(gs, hs):
        check_glyph(g, h, masters, tol, out, f"{what} glyph {g.get('name')!r}")


def convert(data, masters, tol_em, upm, out, what, *args):
    with cli.scratch() as d:
        (d / "f.vfb").write_bytes(data)
        code, _ = cli.run("vfbcu2qu", *args, d / "f.vfb")
        if code:
            out.fail("convert/error", f"{what}: {code}")
            return
        files = cli.tree(d)
        if files.pop("f.vfb") != data:
            out.fail("convert/input", f"{what}: the input was changed")
        if set(files) != {"f.qu.vfb"}:
            out.fail("convert/files", f"{what}: {sorted(files)}")
            return
        check_font(data, files["f.qu.vfb"], masters, tol_em * upm, out, what)


def upm(v=1000):
    return U.u(1135, v)


# ------------------------------------------------------------------ kinds


def run_shapes(payload, out):
    m, n, open_, first = payload
    gs = []
    for types in product(("line", "curve", "qcurve"), repeat=n):
        if first != list(types[: len(first)]):
            continue
        # a spline of off-curve points ends at a line node or at the start
        if any(a == "qcurve" and b == "curve" for a, b in zip(types, types[1:])) or (open_ and types and types[-1] == "qcurve"):
            continue
        for closed in [{k for k in range(m) if bits >> k & 1} for bits in range(1 << m)]:
            if closed and (n < 2 or open_ or types[-1] == "qcurve"):
                continue
            gs.append(gl(name=f"g{len(gs)}", num_masters=m, nodes=U.contour(types, m, closed, open_)))
    for i in range(0, len(gs), 40):
        part = gs[i : i + 40]
        data = U.font(part, masters=m, before=[upm()])
        out.state(f"{payload} {i}")
        convert(data, m, 0.001, 1000, out, f"{m} masters {n} segments {'open' if open_ else 'closed'}")
        out.trace(len(part))


COORD = [(0, 0), (100, 0), (0, 100), (300, 400), (-150, 60), (700, 700), (50, 51), (1000, -1000), (1, 0), (33, 333), (-500, -20), (400, 300), (3000, 2999), (-7, 8)]
ENDS = [(100, 0), (700, 700), (0, 0), (3, -2)]
TOLS = [0.001, 0.0001, 0.01, 0.05, 0.5]


def run_grid(payload, out):
    end, tol, n = payload
    gs = []
    for a, b in product(COORD[:n], repeat=2):
        nodes = [node("move", 0, [[(0, 0)]]), node("curve", 0, [[ENDS[end], a, b]]), node("line", 0, [[(-70, 500)]])]
        gs.append(gl(name=f"g{len(gs)}", nodes=nodes))
    for i in range(0, len(gs), 36):
        out.state(f"{payload} {i}")
        data = U.font(gs[i : i + 36], before=[upm()])
        args = [] if tol == 0 else ["-m", str(TOLS[tol])]
        convert(data, 1, TOLS[tol], 1000, out, f"grid tolerance {TOLS[tol]}", *args)
        out.trace(len(gs[i : i + 36]))


def run_pairs(m, out):
    cs = [("line", "line"), ("curve",), ("curve", "curve"), ("qcurve", "line"), ("curve", "line", "curve")]
    gs = []
    for a, b, op in product(cs, cs, (False, True)):
        nodes = U.contour(a, m) + U.contour(b, m, open_=op, base=200)
        comps = [dict(gid=0, offsetX=[5] * m, offsetY=[7] * m, scaleX=[1.0] * m, scaleY=[0.5] * m)] if a != b else []
        gs.append(gl(name=f"g{len(gs)}", num_masters=m, nodes=nodes, components=comps))
    gs.append(gl(name="empty", num_masters=m))
    for i in range(0, len(gs), 17):
        out.state(f"{m} {i}")
        convert(U.font(gs[i : i + 17], masters=m, before=[upm()]), m, 0.001, 1000, out, f"{m} masters, contours")
        out.trace()


def run_units(_, out):
    for em, tol, m in product((16, 1000, 2048, 16384), (None, 0.0005, 0.002, 0.1), (1, 2)):
        k = em // 16
        nodes = [
            node("move", 0, [[(0, 0)]] * m),
            node("curve", 0, [[(10 * k, j), (0, 7 * k), (3 * k, 12 * k)] for j in range(m)]),
            node("curve", 0, [[(0, 0), (25 * k, -9 * k), (2 * k, 3 * k + j)] for j in range(m)]),
        ]
        data = U.font([gl(name="A", nodes=nodes, num_masters=m)], masters=m, before=[upm(em)])
        out.state(f"{em} {tol} {m}")
        convert(data, m, tol or 0.001, em, out, f"{em} units, {tol}, {m} masters", *(["-m", str(tol)] if tol else []))
        out.trace()


def run_rich(payload, out):
    m, skip = payload
    data = rich(m, skip)
    out.state(f"{payload}")
    if "info" in skip:
        # no units per em: nothing to relate the tolerance to
        with cli.scratch() as d:
            (d / "f.vfb").write_bytes(data)
            code, _ = cli.run("vfbcu2qu", d / "f.vfb")
            if not code or set(cli.tree(d)) != {"f.vfb"}:
                out.fail("convert/units", f"{payload}: {code} {sorted(cli.tree(d))}")
        out.trace()
        return
    convert(data, m, 0.001, 1000, out, f"{m} masters without {skip}")
    out.trace()


def run_nothing(_, out):
    """Fonts without outlines are not written"""
    for gs, m in product(([], [gl(name="A")], [gl(name="A"), gl(name="B", components=[dict(gid=0, offsetX=[1], offsetY=[2], scaleX=[1.0], scaleY=[1.0])])]), (1,)):
        data = U.font(gs, masters=m, before=[upm()])
        for force in ([], ["-fo"]):
            with cli.scratch() as d:
                (d / "f.vfb").write_bytes(data)
                (d / "f.qu.vfb").write_bytes(b"old")
                before = cli.tree(d)
                code, text = cli.run("vfbcu2qu", *force, d / "f.vfb")
                if code or cli.tree(d) != before or "not modified" not in text:
                    out.fail("convert/nothing", f"{len(gs)} glyphs {force}: {code} {sorted(cli.tree(d))}")
        out.state(f"{len(gs)}")
    # Damaged fonts raise an error, and nothing is written
    good = rich(1, ["dup"])
    for name, data in {"cut": good[:-9], "signature": b"X" + good[1:], "glyph": U.font([], before=[upm()], after=[(2001, b"\x01\x09\x07\x01\x08")]), "empty": b""}.items():
        with cli.scratch() as d:
            (d / "f.vfb").write_bytes(data)
            (d / "f.qu.vfb").write_bytes(b"old")
            code, _ = cli.run("vfbcu2qu", "-fo", d / "f.vfb")
            if not code:
                out.fail("convert/silent", f"{name}: no error")
            if cli.tree(d) != {"f.vfb": data, "f.qu.vfb": b"old"}:
                out.fail("convert/failing", f"{name}: the files have changed")
        out.state(name)
    out.trace()


# (arguments before and after the input, where it goes)
OUT = [
    (lambda d: ([], []), "{n}.qu.vfb"),
    (lambda d: (["-p", f"{d}/sub"], []), "sub/{n}.vfb"),
    (lambda d: (["-p", f"{d}/sub/"], []), "sub/{n}.vfb"),
    (lambda d: ([], [f"{d}/other.vfb"]), "other.vfb"),
    (lambda d: ([], [f"{d}/sub/x.y.vfb"]), "sub/x.y.vfb"),
    (lambda d: ([], [f"{d}/x/../sub/noext"]), "sub/noext"),
    (lambda d: (["-p", f"{d}/sub"], [f"{d}/other.vfb"]), "sub/{n}.vfb"),
    # over the input itself
    (lambda d: (["-p", f"{d}"], []), "{n}.vfb"),
    (lambda d: ([], [f"{d}/f.vfb"]), "f.vfb"),
]


def run_paths(payload, out):
    m, k = payload
    args, out_name = OUT[k]
    data = rich(m, ["dup"])
    for existing, force, tol, name in product((False, True), (False, True), (None, 0.01), ("f", "two.parts", "sp ace")):
        if tol and name != "f" or out_name == "f.vfb" and name != "f":
            continue
        where = out_name.format(n=name)
        src = f"{name}.vfb"
        same = where == src
        if same and existing:
            continue
        what = f"{m} masters, {src}, output {k}, existing {existing}, force {force}"
        out.state(f"{what} {tol}")
        with cli.scratch() as d:
            (d / src).write_bytes(data)
            (d / "sub").mkdir()
            (d / "x").mkdir()
            (d / "keep.qu.vfb").write_bytes(b"mine")
            if existing:
                (d / where).write_bytes(b"old")
            pre, post = args(d)
            before = cli.tree(d)
            t = ["-m", str(tol)] if tol else []
            code, _ = cli.run("vfbcu2qu", *pre, *t, *(["-fo"] if force else []), *([d / src] if not t else ["--", d / src]), *post)
            after = cli.tree(d)
            if (existing or same) and not force:
                if not code or after != before:
                    out.fail("paths/overwritten", f"{what}: {code}")
                continue
            if code:
                out.fail("paths/error", f"{what}: {code}")
                continue
            new = after.pop(where, None)
            before.pop(where, None)
            if after != before or new is None:
                out.fail("paths/files", f"{what}: {sorted(after)}")
                continue
            check_font(data, new, m, (tol or 0.001) * 1000, out, what)
            out.trans()
    out.trace()


def run_sample(name, out):
    data = (DATA / name).read_bytes()
    v = U.read(data)
    m = v.num_masters
    em = v.info.unitsPerEm
    if not em:
        return
    # (compare with the written font, the samples are not all canonical)
    with cli.scratch() as d:
        v.write(d / "base.vfb")
        base = (d / "base.vfb").read_bytes()
        (d / "base.vfb").unlink()
        (d / "f.vfb").write_bytes(data)
        code, text = cli.run("vfbcu2qu", d / "f.vfb")
        files = cli.tree(d)
        if code:
            out.fail("sample/error", f"{name}: {code}")
            return
        if "not modified" in text:
            if set(files) != {"f.vfb"} or any(g["nodes"] for g in glyphs(data) if g.get("nodes")):
                out.fail("sample/nothing", f"{name}: {sorted(files)}")
            return
        check_font(base, files["f.qu.vfb"], m, em * 0.001, out, name)
    out.state(name)
    out.trace()


KINDS = {
    "shapes": run_shapes, "grid": run_grid, "pairs": run_pairs, "units": run_units, "rich": run_rich,
    "paths": run_paths, "nothing": run_nothing, "sample": run_sample,
}  # fmt: skip
