"""PostScript stem hints and hint replacement: what the UFO masters and the
glyph API say about hints, links and hint masks."""
from itertools import combinations, product

from mc import ref as R
from mc import ufo as U
from mc.codec import gl

PID = "C24"
RULE = (
    "all lists of stem hints and links over an alphabet with ghosts, negative and equal stems, all hint mask programs "
    "up to the stated length, all nodes for hint replacement, 1, 2 and 4 masters, together with TrueType labels; a "
    "state is a hinted glyph"
)
BOUNDS = {
    "quick": "hint lists of up to 2 + 2 over 6 hints, link lists of up to 2 + 1 over all point pairs of 7 nodes and both ghosts; mask programs of up to 5 operations over 6, all replacement nodes; all sequences of up to 3 glyphs of 2 names with and without hints and links; long lists; all lists of up to 4 of 4 stems that coincide in all or some masters",
    "thorough": "mask programs of up to 6 operations over 7; link lists of up to 2 + 2; hint lists of up to 3 + 2; sequences of up to 4 glyphs",
}
CHUNK = 1
CASE_LIMIT = 400
KEY = "com.adobe.type.autohint.v2"
H = [(0, 20), (100, -20), (50, -21), (200, -30), (200, 0), (-107, 1132)]


def nodes_of(m):
    return U.contour(("line", "curve", "line"), m) + U.contour(("line", "line"), m, None, False, 300)


def cases(tier):
    n = 3 if tier == "thorough" else 2
    for a in range(n + 1):
        for b in range(3):
            for m in (1, 2, 4, 16):
                yield "hints", [a, b, m]
    for a in range(3):
        for b in range(3 if tier == "thorough" else 2):
            for m in (1, 2, 4, 16) if a + b < 3 else (1, 2):
                yield "links", [a, b, m]
    k = 6 if tier == "thorough" else 5
    for n in range(1, k + 1):
        for head in range(len(OPS)):
            yield "masks", [n, head, 1 if n > 3 else 2]
    for n in range(1, 4):
        yield "replace", n
    yield "labels", None
    yield "flat", None
    for m in (1, 2):
        for n in (20, 96, 97, 100, 101, 128, 256, 300):
            yield "many", [m, n]
    for m in (1, 2, 4):
        yield "equal", m
    yield "closing", None
    yield "without", None
    for n in range(1, 5 if tier == "thorough" else 4):
        yield "attached", n


def ref_hints(g, links, m):
    """{direction: [(stem, position, width)]}"""
    res = {"h": [], "v": []}
    for d in "hv":
        for mh in (g.get("hints") or {}).get(d, []):
            pos, w = mh[m]["pos"], mh[m]["width"]
            if w < 0 and w not in (-20, -21):
                pos, w = pos + w, -w
            res[d].append((f"{d}stem", pos, w))
    for i, (axis, d) in enumerate((("x", "v"), ("y", "h"))):
        for s, t in (links or {}).get(axis, []):
            p = g["nodes"][s]["points"][m][0][i]
            if t == -1:
                res[d].append((f"{d}stem", p + 21, -21))
            elif t == -2:
                res[d].append((f"{d}stem", p, -20))
            else:
                res[d].append((f"{d}stem", p, g["nodes"][t]["points"][m][0][i] - p))
    return res


def ref_sets(g, links, m):
    """{node index: set of stems}, in the order of the hint program"""
    hints = ref_hints(g, links, m)
    masks = (g.get("hints") or {}).get("hintmasks") or []
    sets = []
    if not masks:
        sets.append((0, set(hints["h"] + hints["v"])))
    else:
        cur, node = set(), 0
        for k, i in masks:
            if k == "r":
                sets.append((node, cur))
                node, cur = (i if i >= 0 else -i - 1), set()
            elif i < len(hints[k]):
                cur.add(hints[k][i])
        sets.append((node, cur))
    res = {}
    for node, cur in sets:
        if cur:
            res[node] = cur
    return res


def enc_links(links):
    b = b""
    for axis in "yx":
        b += R.num(len(links[axis])) + b"".join(R.nums(p) for p in links[axis])
    return (2008, b)


def label_pos(glyph):
    d = {}
    for c in U.ufo_points(glyph)[0]:
        for _, _, nm, pt in c:
            if nm is not None:
                d.setdefault(nm, []).append(pt)
    return d


def merged_with(nodes, i):
    """The last point of the closed contour that starts at i, if this point is
    merged with i in the UFO"""
    if nodes[i]["type"] != "move" or nodes[i]["flags"] & 8:
        return None
    j = i + 1
    while j < len(nodes) and nodes[j]["type"] != "move":
        j += 1
    last = nodes[j - 1]
    if last["type"] == "curve" and all(a[0] == b[0] for a, b in zip(nodes[i]["points"], last["points"])):
        return j - 1
    return None


def check(glyphs, m, out, fp, before=(), api=True):
    """glyphs: list of (glyph, links)"""
    defs = []
    for i, (g, links) in enumerate(glyphs):
        g["name"] = f"g{i}"
        out.state(repr((g.get("hints"), links, m)))
        defs.append((g, [enc_links(links)] if links else []))
    data = U.font(defs, m, before=before)
    ufos, _ = U.convert(data)
    for k, ufo in enumerate(ufos):
        for i, (g, links) in enumerate(glyphs):
            what = f"hints {g.get('hints')}, links {links}, master {k}"
            want = ref_sets(g, links, k)
            lib = ufo[f"g{i}"].lib.get(KEY)
            if lib is None:
                if want:
                    out.fail(f"{fp}/missing", f"{what}: no hints in the UFO, reference {want}")
                continue
            got = lib.get("hintSetList", [])
            pos = label_pos(ufo[f"g{i}"])
            if len(got) != len(want):
                out.fail(f"{fp}/count", f"{what}: {got}, reference {want}")
                continue
            tags = [s["pointTag"] for s in got]
            if len(set(tags)) < len(tags) or lib.get("formatVersion") != "1":
                out.fail(f"{fp}/tags", f"{what}: {got}")
            for s, (node, stems) in zip(got, want.items()):
                st = [tuple((a, int(b), int(c)) for a, b, c in [x.split(" ")])[0] for x in s["stems"]]
                if len(st) != len(set(st)) or set(st) != stems or st != sorted(st):
                    out.fail(f"{fp}/stems", f"{what}: at node {node} {s['stems']}, reference {sorted(stems)}")
                want_xy = tuple(g["nodes"][node]["points"][k][0])
                at = pos.get(s["pointTag"], [])
                if at != [want_xy]:
                    f = "/merged" if not at and merged_with(g["nodes"], node) in want else "/node"
                    out.fail(fp + f, f"{what}: the hint set {s['pointTag']} is at {at}, node {node} at {want_xy}")
                out.trans()
            out.trace()
    if not api:
        return
    v = U.read(data, decompile=False)
    for i, (g, links) in enumerate(glyphs):
        vg = v[f"g{i}"]
        masks = (g.get("hints") or {}).get("hintmasks") or []
        for k in range(m):
            vg.master_index = k
            want = ref_hints(g, links, k)
            what = f"hints {g.get('hints')}, links {links}, master {k}"
            out.eq(vg.resolve_hints(), want, f"{fp}/api", what)
            only = ref_hints(dict(g, hints=None), links, k)
            out.eq(vg.resolve_links(), only, f"{fp}/api-links", what)
            if any(kk != "r" and ii >= len(want[kk]) for kk, ii in masks) or any(kk == "r" and ii < 0 for kk, ii in masks):
                continue
            sets = ref_sets(g, links, k)
            got = {n: set(s) for n, s in vg.resolve_hint_sets().items() if s}
            out.eq(got, sets, f"{fp}/api-sets", what)
            out.trans()


def hint(i, m):
    p, w = H[i]
    # ghosts are ghosts in all masters
    return [dict(pos=p + 7 * k, width=w if w in (-20, -21) else w + k) for k in range(m)]


def run_hints(payload, out):
    a, b, m = payload
    part = []
    for hs in product(range(len(H)), repeat=a):
        for vs in product(range(len(H)), repeat=b):
            h = dict(h=[hint(i, m) for i in hs], v=[hint(i, m) for i in vs])
            part.append((gl(num_masters=m, metrics=[(500, 0)] * m, nodes=nodes_of(m), hints=h), None))
    for lo in range(0, len(part), 300):
        check(part[lo : lo + 300], m, out, "hints")


def run_links(payload, out):
    a, b, m = payload
    nodes = nodes_of(m)
    n = len(nodes)
    pairs = [(s, t) for s in range(n) for t in (*range(n), -1, -2) if s != t]
    if a + b > 2:
        pairs = pairs[:: 5 if a + b == 3 else 7]
    part = []
    for xs in product(pairs, repeat=a):
        for ys in product(pairs, repeat=b):
            for h in (None, dict(h=[hint(0, m)], v=[hint(3, m), hint(1, m)])):
                g = gl(num_masters=m, metrics=[(500, 0)] * m, nodes=nodes, **(dict(hints=h) if h else {}))
                part.append((g, dict(x=[list(p) for p in xs], y=[list(p) for p in ys])))
    for lo in range(0, len(part), 300):
        check(part[lo : lo + 300], m, out, "links")


def run_equal(m, out):
    """Stems that are equal in all, or only in some, of the masters keep their
    places in the list that hint masks refer to"""
    # the same in the first master; in the last one; nowhere; everywhere
    stems = [
        [dict(pos=10, width=20)] * m,
        [dict(pos=10 + 5 * k, width=20) for k in range(m)],
        [dict(pos=10 + 5 * (m - 1 - k), width=20) for k in range(m)],
        [dict(pos=300 + k, width=30) for k in range(m)],
    ]
    part = []
    for n in (2, 3, 4) if m < 4 else (2, 3):
        for sel in product(range(4), repeat=n):
            for d, o in ("hv", "vh"):
                for masks in ([], [(d, n - 1)], [(d, 0), ("r", 2), (d, n - 1)], [(d, n - 1), ("r", 2), (d, 1), ("r", 3), (d, 0), (o, 0)]):
                    h = {d: [stems[i] for i in sel], o: [hint(0, m)], "hintmasks": masks}
                    # a link that makes the same stem as a hint moves nothing, either
                    part.append((gl(num_masters=m, metrics=[(500, 0)] * m, nodes=nodes_of(m), hints=h), None if n > 2 else dict(x=[[0, 1], [0, 1], [1, 2]], y=[[1, 2], [1, 2]])))
    for lo in range(0, len(part), 300):
        check(part[lo : lo + 300], m, out, "equal")


def run_flat(_, out):
    """Links between nodes at the same coordinates"""
    for m in (1, 2, 4):
        xs = [0, 100, 100, 0, -50, 100]
        nodes = [dict(type="move" if i == 0 else "line", flags=0, points=[[(x + 10 * k * (i % 2), x // 50 * 30 + k)] for k in range(m)]) for i, x in enumerate(xs)]
        pairs = [(s, t) for s in range(len(xs)) for t in range(len(xs)) if s != t]
        part = []
        for p in pairs:
            g = gl(num_masters=m, metrics=[(500, 0)] * m, nodes=nodes)
            part.append((g, dict(x=[list(p)], y=[])))
            part.append((dict(g), dict(x=[], y=[list(p)])))
        check(part, m, out, "flat")


def run_many(payload, out):
    """Many hints, and many replacements of them"""
    m, n = payload
    nodes = U.contour(("line",) * (n + 2), m)
    h = {d: [[dict(pos=i * 5 + k, width=3 + i % 7) for k in range(m)] for i in range(n)] for d in "hv"}
    once = [("h", 0)]
    pairs = [("h", 0)]
    for i in range(1, n):
        once += [("r", i), ("h", i), ("v", n - i)]
        pairs += [("h", i), ("v", i)]
    part = [
        (gl(num_masters=m, metrics=[(500, 0)] * m, nodes=nodes, hints=h), None),
        (gl(num_masters=m, metrics=[(500, 0)] * m, nodes=nodes, hints=dict(h, hintmasks=once)), None),
        (gl(num_masters=m, metrics=[(500, 0)] * m, nodes=nodes, hints=dict(h, hintmasks=pairs)), dict(x=[[i, i + 1] for i in range(n)], y=[])),
    ]
    check(part, m, out, "many")


OPS = [("h", 0), ("v", 0), ("h", 1), ("v", 1), ("r", 3), ("r", -3), ("h", 7)]


def run_masks(payload, out):
    n, head, m = payload
    part = []
    for tail in product(range(len(OPS)), repeat=n - 1):
        prog = [OPS[i] for i in (head, *tail)]
        # two hints per direction, one of them made from a link
        h = dict(h=[hint(0, m)], v=[hint(3, m), hint(5, m)], hintmasks=prog)
        part.append((gl(num_masters=m, metrics=[(500, 0)] * m, nodes=nodes_of(m), hints=h), dict(x=[], y=[[1, 2]])))
        if n < 4:
            # directions without hints, or with hints that are made from links only
            for hs, vs in (([], [3]), ([0], []), ([], []), ([0, 1, 2], [])):
                h = dict(h=[hint(i, m) for i in hs], v=[hint(i, m) for i in vs], hintmasks=prog)
                for links in (None, dict(x=[[1, 2], [0, -1]], y=[])):
                    part.append((gl(num_masters=m, metrics=[(500, 0)] * m, nodes=nodes_of(m), hints=h), links))
    for lo in range(0, len(part), 300):
        check(part[lo : lo + 300], m, out, "masks", api=n < 5)


def run_replace(k, out):
    m = 2
    nodes = nodes_of(m)
    n = len(nodes)
    part = []
    for seq in product([*range(n), *range(-n, 0)], repeat=k):
        prog = [("h", 0)]
        for j, r in enumerate(seq):
            prog += [("r", r), ("v" if j % 2 else "h", j // 2 + j % 2)]
        h = dict(h=[hint(i, m) for i in range(3)], v=[hint(i, m) for i in range(3)], hintmasks=prog)
        part.append((gl(num_masters=m, metrics=[(500, 0)] * m, nodes=nodes, hints=h), None))
    for lo in range(0, len(part), 300):
        check(part[lo : lo + 300], m, out, "replace", api=k < 3)


def run_labels(_, out):
    """Points that carry labels of TrueType commands, too"""
    m = 2
    nodes = nodes_of(m)
    part = []
    for r in range(len(nodes)):
        for pts in combinations(range(len(nodes)), 2):
            h = dict(h=[hint(0, m), hint(3, m)], v=[], hintmasks=[("h", 0), ("r", r), ("h", 1)])
            tth = [dict(cmd="AlignH", params=dict(pt=p, align=0)) for p in pts]
            part.append((gl(num_masters=m, metrics=[(500, 0)] * m, nodes=nodes, hints=h, tth=tth), None))
    check(part, m, out, "labels", api=False)


def run_closing(_, out):
    """Hint replacement at points that are merged when a contour is closed"""
    for m in (1, 2):
        for seq in (("curve",), ("line", "curve"), ("curve", "curve")):
            for lead in (0, 1):
                pre = U.contour(("line", "line"), m, None, False, 500) if lead else []
                nodes = pre + U.contour(seq, m, set(range(m)))
                part = []
                for rs in [()] + [(r,) for r in range(len(nodes))] + list(product(range(len(nodes)), repeat=2)):
                    prog = [("h", 0)]
                    for j, r in enumerate(rs):
                        prog += [("r", r), ("h", j + 1)]
                    h = dict(h=[hint(i, m) for i in (0, 3, 5)], v=[], hintmasks=prog)
                    part.append((gl(num_masters=m, metrics=[(500, 0)] * m, nodes=nodes, hints=h), None))
                check(part, m, out, "closing", api=False)


def run_without(_, out):
    """No hints are written if they are not wanted, and outlines don't get labels"""
    m = 2
    h = dict(h=[hint(0, m), hint(3, m)], v=[hint(1, m)], hintmasks=[("h", 0), ("r", 3), ("h", 1), ("v", 0)])
    glyphs = [
        (gl(name="a", num_masters=m, metrics=[(500, 0)] * m, nodes=nodes_of(m), hints=h), [enc_links(dict(x=[[0, 1]], y=[]))]),
        (gl(name="b", num_masters=m, metrics=[(500, 0)] * m, nodes=nodes_of(m)), [enc_links(dict(x=[[0, 1]], y=[]))]),
        (gl(name="c", num_masters=m, metrics=[(500, 0)] * m, nodes=nodes_of(m)), []),
    ]
    data = U.font(glyphs, m)
    for ps in (False, True):
        ufos, _ = U.convert(data, pshints=ps)
        for ufo in ufos:
            for n in "abc":
                has = KEY in ufo[n].lib
                out.eq(has, ps and n != "c", "without/lib", f"glyph {n}, hints {ps}")
                out.eq(bool(label_pos(ufo[n])), ps and n != "c", "without/labels", f"glyph {n}, hints {ps}")
                out.state(f"{n}{ps}")
                out.trans()
            out.trace()


def run_attached(n, out):
    """Hints and links belong to the glyph they are stored with, whatever the
    names and records of its neighbours are"""
    m = 1
    if n < 3:
        kinds = list(product(("a", "b", "a#1"), (0, 1), (0, 1), (0, 1)))
    else:
        kinds = [(nm, h, k, k) for nm in "ab" for h in (0, 1) for k in (0, 1)]
    for combo in product(kinds, repeat=n):
        defs, glyphs = [], []
        for i, (nm, h, k, o) in enumerate(combo):
            g = gl(name=nm, num_masters=m, metrics=[(500, 0)] * m, nodes=nodes_of(m))
            if h:
                g["hints"] = dict(h=[hint(i, m)], v=[])
            links = dict(x=[[i, i + 1]], y=[]) if k else None
            more = [enc_links(links)] if links else []
            if o:
                more.insert(i % 2, (2010, R.u32(1 << 29 + i % 2)))
            defs.append((g, more))
            glyphs.append((g, links, o))
        data = U.font(defs, m)
        out.state(repr(combo))
        v = U.read(data, decompile=False)
        names = list(v.keys())
        (ufo,), _ = U.convert(data)
        ufo_names = ufo.lib["public.glyphOrder"]
        out.eq((len(names), len(ufo_names)), (n, n), "attached/count", str(combo))
        # the hinting options records, by the glyph they follow
        opts, cur = {}, -1
        for e in v.entries:
            if e.id == 2001:
                cur += 1
            elif e.id == 2010:
                opts[cur] = e
        for i, (g, links, o) in enumerate(glyphs):
            want = ref_hints(g, links, 0)
            what = f"glyph {i} of {combo}"
            if v[names[i]].ps_hinting_options is not opts.get(i):
                out.fail("attached/options", f"{what}: hinting options of another glyph, or none")
            out.eq(v[names[i]].resolve_hints(), want, "attached/api", what)
            lib = ufo[ufo_names[i]].lib.get(KEY)
            stems = {x for s in lib["hintSetList"] for x in s["stems"]} if lib else set()
            out.eq(stems, {" ".join(map(str, s)) for d in "hv" for s in want[d]}, "attached/ufo", what)
            out.trans()
        out.trace()


KINDS = {
    "equal": run_equal, "flat": run_flat, "many": run_many,
    "hints": run_hints, "links": run_links, "masks": run_masks, "replace": run_replace,
    "labels": run_labels, "closing": run_closing, "without": run_without, "attached": run_attached,
}  # fmt: skip
