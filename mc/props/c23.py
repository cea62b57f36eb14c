"""TrueType hinting in UFOs: every exported command names the points of the
outline, stems and zones which the command in the VFB refers to."""
from base64 import b64decode
from itertools import permutations, product
from xml.etree import ElementTree

from mc import ref as R
from mc import ufo as U
from mc.codec import gl

PID = "C23"
RULE = (
    "all hinting commands with all point references of an outline that has every kind of contour, all stem, zone, "
    "alignment and delta parameters, all command sequences up to the stated length, composites, all stem name lists, "
    "rounding tables, zone deltas and settings, TrueType programs; a state is a hinted glyph or a font level table"
)
BOUNDS = {
    "quick": "14 commands x all points/pairs/triples of a 12 node outline x parameters; sequences of up to 2 commands; 1 and 2 masters; all stem name lists of up to 3+2; all rounding tables over 3 ppms; programs of up to 4 instructions; control value tables of up to 5000 values; up to 300 stems, zones and deltas per zone; all lists of up to 3 stems with equal widths, names and roundings",
    "thorough": "also sequences of 3 commands, stem name lists of up to 3+3 and programs of up to 6 instructions",
}
CHUNK = 1
CASE_LIMIT = 400
KEY = "com.fontlab.ttprogram"
LIB = "com.fontlab.v2.tth"
TTI = "public.truetype.instructions"
ST = {
    "ttStemsV": [(80, "V: 80", (0, 10, 20, 30, 40, 50)), (81, "\u00e9<&\"", (1, 11, 21, 31, 41, 51))],
    "ttStemsH": [(90, "H", (2, 12, 22, 32, 42, 52)), (91, "", (3, 13, 23, 33, 43, 53)), (92, "", (4, 14, 24, 34, 44, 54))],
}
ZN = {"ttZonesT": [(500, 10, "x'height"), (700, 12, "cap")], "ttZonesB": [(0, -10, "b&se"), (-200, -8, "desc"), (-9, 1, "z3")]}


def outline(m, eq=None):
    """A closed contour ending in a curve to its first point, an open one, one
    ending in off-curve points and one ending with a curve elsewhere."""
    eq = set(range(m)) if eq is None else set(eq)
    return (
        U.contour(("line", "curve"), m, eq)
        + U.contour(("line", "line"), m, None, True, 300)
        + U.contour(("qcurve", "line", "qcurve"), m, None, False, 600)
        + U.contour(("curve",), m, None, False, 900)
    )


PARAMS = {"zone": (0, 1), "stem": (-3, -2, -1, 0, 1, 2, 9), "align": (-1, 0, 1, 2, 3, 4, 5), "shift": (0, -8, 108), "ppm1": (9, 300), "ppm2": (0, 12)}


def cases(tier):
    for m, eqs in ((1, ((0,), ())), (2, ((0, 1), (0,), ()))):
        for eq in eqs:
            for c in R.TT:
                yield "points", [c, m, list(eq)]
    for c in R.TT:
        yield "params", c
    for k in (2, 3) if tier == "thorough" else (2,):
        for head in product(list(R.TT), repeat=k - 1):
            yield "seqs", [k, list(head)]
    for m in (1, 2):
        for c in R.TT:
            yield "composites", [c, m]
    yield "composites", ["AlignH", 1, True]
    yield "composites", ["SingleLinkV", 2, True]
    yield "mergers", None
    n = 3 if tier == "thorough" else 2
    for a in range(4):
        for b in range(n + 1):
            yield "stems", [a, b]
    yield "rounds", None
    yield "zones", None
    for n in (9, 10, 11, 40, 100, 128, 300):
        yield "manyzones", n
        yield "manystems", n
    for n in range(2, 5 if tier == "thorough" else 4):
        yield "equalstems", n
    yield "settings", None
    yield "cvt", None
    for k in range(1, 7 if tier == "thorough" else 5):
        yield "programs", [k, "fpgm"]
        if k < 4:
            yield "programs", [k, "prep"]
            yield "programs", [k, "glyph"]
    yield "opcodes", None
    for m in (1, 2, 4, 16):
        yield "hashes", m
    for m in (1, 2):
        yield "together", m


def parse(lib, out, what):
    """List of attribute dicts of the glyph program"""
    data = lib.get(KEY)
    if data is None:
        return []
    if isinstance(data, bytes):
        data = b64decode(data).decode("utf-8")
    root = ElementTree.fromstring(data.strip())
    if root.tag != "ttProgram" or any(e.tag != "ttc" for e in root):
        out.fail("xml", f"{what}: {data}")
    return [dict(e.attrib) for e in root]


def names_of(ufo, stems, out, what):
    """The name each stem has in the font lib, found by its (unique) width"""
    lib = ufo.lib.get(LIB, {}).get("stems", {})
    res = {}
    for d, hor in (("ttStemsV", True), ("ttStemsH", False)):
        res[d] = []
        for value, name, _ in stems[d]:
            hits = [k for k, s in lib.items() if s["width"] == value and s["horizontal"] is hor]
            if len(hits) != 1:
                out.fail("stems/lost", f"{what}: the stem {value} '{name}' of {d} is in the lib as {hits}: {U.plain(lib)}")
                hits = ["?"]
            res[d].append(hits[0])
    return res


ZNAMES = {d: [z[2] for z in ZN[d]] for d in ZN}


def where(ufo, glyph, label, out, what, fp="points"):
    """Coordinates of the labelled point"""
    hits = [pt for c in U.ufo_points(glyph)[0] for _, _, nm, pt in c if nm == label]
    if len(hits) != 1:
        out.fail(f"{fp}/label", f"{what}: the label {label} is at {hits}")
        return None
    return hits[0]


def check(ufos, name, nodes, cmds, out, what, names=None, fp="points"):
    n = len(nodes)
    for m, ufo in enumerate(ufos):
        g = ufo[name]
        stems = names or names_of(ufo, ST, out, what)
        got = parse(g.lib, out, what)
        if len(got) != len(cmds):
            out.fail(f"{fp}/count", f"{what}: {got} for {cmds}")
            continue
        for cmd, a in zip(cmds, got):
            pts, want = U.tt_command(cmd, stems, ZNAMES)
            rest = {k: v for k, v in a.items() if k not in ("point", "point1", "point2")}
            out.eq(rest, want, f"{fp}/attributes", f"{what} {cmd}")
            labels = {k: v for k, v in a.items() if k not in rest}
            if set(labels) != set(pts):
                out.fail(f"{fp}/refs", f"{what} {cmd}: {labels}")
                continue
            for k, i in pts.items():
                if i >= n:
                    if labels[k] != ("lsb", "rsb")[i - n]:
                        out.fail(f"{fp}/sidebearing", f"{what} {cmd}: {labels}")
                    continue
                xy = where(ufo, g, labels[k], out, f"{what} {cmd}, master {m}", fp)
                if xy is not None and xy != tuple(nodes[i]["points"][m][0]):
                    out.fail(f"{fp}/wrong", f"{what} {cmd}, master {m}: {labels[k]} is at {xy}, node {i} at {nodes[i]['points'][m][0]}")
            out.trans()
        out.trace()


def run_glyphs(m, nodes, programs, out, fp, what, options=({},), hints=None, before=None):
    """One glyph per program"""
    for lo in range(0, len(programs), 400):
        part = programs[lo : lo + 400]
        glyphs = [gl(name=f"g{i}", num_masters=m, metrics=[(500, 0)] * m, nodes=nodes, tth=p, **(hints or {})) for i, p in enumerate(part)]
        data = U.font(glyphs, m, before=U.tt_records(ST, ZN))
        for opt in options:
            ufos, _ = U.convert(data, **opt)
            names = names_of(ufos[0], ST, out, what)
            for u in ufos:
                for i in range(len(part)):
                    lib = u[f"g{i}"].lib
                    if KEY in lib and isinstance(lib[KEY], bytes) != bool(opt.get("base64")):
                        out.fail("base64", f"{what}: the program is {type(lib[KEY]).__name__} with the options {opt}")
            for i, p in enumerate(part):
                out.state(repr((nodes, p, sorted(opt))))
                check(ufos, f"g{i}", nodes, p, out, f"{what} {opt}", names, fp)


BASE = {"zone": 0, "stem": 0, "align": 0, "shift": 8, "ppm1": 10, "ppm2": 12}


def cmd_of(c, pts, **kw):
    ps = R.TT[c][1]
    it = iter(pts)
    return {"cmd": c, "params": {p: next(it) if p in U.TT_POINTS else kw.get(p, BASE.get(p)) for p in ps}}


def npts(c):
    return sum(p in U.TT_POINTS for p in R.TT[c][1])


def run_points(payload, out):
    c, m, eq = payload
    nodes = outline(m, eq)
    n = len(nodes) + 2
    progs = [[cmd_of(c, pts)] for pts in product(range(n), repeat=npts(c))]
    run_glyphs(m, nodes, progs, out, "points", f"{c}, last point equal in masters {eq}")


def run_params(c, out):
    nodes = outline(1)
    ps = [p for p in R.TT[c][1] if p not in U.TT_POINTS]
    pts = list(range(1, 1 + npts(c)))
    progs = [[cmd_of(c, pts, **dict(zip(ps, vals)))] for vals in product(*(PARAMS[p] for p in ps))]
    if c == "AlignBottom":
        progs += [[cmd_of(c, pts, zone=2)]]
    run_glyphs(1, nodes, progs, out, "params", c, ({}, dict(base64=True), dict(minimal=True), dict(pshints=False)))


def run_seqs(payload, out):
    k, head = payload
    nodes = outline(1)
    progs = []
    for last in R.TT:
        cs = (*head, last)
        for start in range(0, len(nodes) + 2, 3 if k > 2 else 1):
            # neighbouring points, the same points, the first and last of a contour
            for step in (0, 1, 2):
                progs.append([
                    cmd_of(c, [(start + j * step + i) % (len(nodes) + 2) for i in range(npts(c))])
                    for j, c in enumerate(cs)
                ])  # fmt: skip
    run_glyphs(1, nodes, progs, out, "seqs", f"sequences of {head}")


def comp(gid, dx, m):
    return dict(gid=gid, offsetX=[dx] * m, offsetY=[7] * m, scaleX=[1.0] * m, scaleY=[1.0] * m)


def run_composites(payload, out):
    c, m, *big = payload
    bases = [outline(m), U.contour(("line", "line"), m), [], U.contour(("curve", "curve"), m, set(range(m)))]
    lists = [[0, 1], [1, 0], [1, 1], [3, 1], [2, 1], [1, 2, 3], [3]]
    if big:
        bases = [U.contour(("line",) * k, m) for k in (2, 24, 40, 129)]
        lists = [[1, 0], [2, 0], [3, 0], [0, 1, 2, 3], [2, 1, 3], [1, 1, 1, 1, 1, 0]]
    for own in (False, True):
        glyphs, want = [], []
        # composites before and after the glyphs they refer to
        for side in (0, 1):
            for li, lst in enumerate(lists):
                total = sum(len(bases[i]) for i in lst)
                idx = list(range(total + 2))
                combos = list(product(idx, repeat=npts(c))) if npts(c) == 1 else [
                    tuple((a + j * st) % len(idx) for j in range(npts(c))) for a in idx for st in (1, 2, len(bases[lst[0]]))
                ]
                for pts in combos:
                    want.append((side, lst, [cmd_of(c, pts)]))
        first = [w for w in want if w[0] == 0]
        last = [w for w in want if w[0] == 1]
        off = len(first)
        for i, (_, lst, prog) in enumerate(first):
            glyphs.append(gl(name=f"c0.{i}", num_masters=m, metrics=[(500, 0)] * m, nodes=[], tth=prog,
                             components=[comp(off + b, 100 * j, m) for j, b in enumerate(lst)]))  # fmt: skip
        for b, nodes in enumerate(bases):
            kw = {}
            if own and nodes:
                # the base glyph has hints of its own, on all its points
                kw["tth"] = [cmd_of("AlignH", [i]) for i in range(len(nodes))]
            glyphs.append(gl(name=f"base{b}", num_masters=m, metrics=[(400, 0)] * m, nodes=nodes, **kw))
        for i, (_, lst, prog) in enumerate(last):
            glyphs.append(gl(name=f"c1.{i}", num_masters=m, metrics=[(500, 0)] * m, nodes=[], tth=prog,
                             components=[comp(off + b, 100 * j, m) for j, b in enumerate(lst)]))  # fmt: skip
        ufos, _ = U.convert(U.font(glyphs, m, before=U.tt_records(ST, ZN)))
        for mi, ufo in enumerate(ufos):
            stems = names_of(ufo, ST, out, "composites")
            for side, ws in ((0, first), (1, last)):
                for i, (_, lst, (cmd,)) in enumerate(ws):
                    what = f"composite of {lst}, {cmd}, own={own}"
                    out.state(repr((m, side, lst, cmd, own)))
                    g = ufo[f"c{side}.{i}"]
                    got = parse(g.lib, out, what)
                    if len(got) != 1:
                        out.fail("composites/count", f"{what}: {got}")
                        continue
                    pts, attrs = U.tt_command(cmd, stems, ZNAMES)
                    out.eq({k: v for k, v in got[0].items() if k not in pts}, attrs, "composites/attributes", what)
                    nodes = [(j, n) for j, b in enumerate(lst) for n in bases[b]]
                    comps = U.ufo_points(g)[1]
                    for k, p in pts.items():
                        label = got[0].get(k)
                        if p >= len(nodes):
                            if label != ("lsb", "rsb")[p - len(nodes)]:
                                out.fail("composites/sidebearing", f"{what}: {label}")
                            continue
                        j, n = nodes[p]
                        lab, _, ci = (label or "").rpartition("-")
                        if ci != str(j):
                            out.fail("composites/index", f"{what}: {label}, component {j}")
                            continue
                        xy = where(ufo, ufo[comps[j][0]], lab, out, what, "composites")
                        if xy is not None and xy != tuple(n["points"][mi][0]):
                            out.fail("composites/wrong", f"{what}: {label} is at {xy}, the node at {n['points'][mi][0]}")
                    out.trans()
                out.trace()
            if own:
                for b, nodes in enumerate(bases):
                    if nodes:
                        check([ufo] if mi == 0 else [], f"base{b}", nodes, [cmd_of("AlignH", [i]) for i in range(len(nodes))], out, "base", stems, "composites/base")


def run_mergers(_, out):
    """Commands on points that are merged, together with PostScript hint
    replacement on these points"""
    for seq in (("curve",), ("line", "curve"), ("curve", "curve")):
        for lead in (0, 1):
            pre = U.contour(("line", "line"), base=500) if lead else []
            nodes = pre + U.contour(seq, 1, {0})
            a, b = len(pre), len(nodes) - 1
            for masks in ([], [a], [b], [a, b], [b, a], [a + 1], [a, a + 1]):
                hm = [("h", 0)]
                for r in masks:
                    hm += [("r", r), ("h", 0)]
                h = dict(hints=dict(h=[[dict(pos=0, width=20)]], v=[], hintmasks=hm)) if masks else {}
                progs = []
                for pts in ([a], [b], [a, b], [b, a]):
                    progs.append([cmd_of("AlignH", [p]) for p in pts])
                    progs.append([cmd_of("SingleLinkV", [a, b])])
                    progs.append([cmd_of("InterpolateH", [b, a, b])])
                for c in R.TT:
                    progs += [[cmd_of(c, pts)] for pts in product((a, b), repeat=npts(c))]
                for fa, fb in ((0, 0), (1, 0), (0, 1), (1, 1)):
                    # smooth or not at the start and at the end
                    nodes = [dict(n) for n in nodes]
                    nodes[a]["flags"], nodes[b]["flags"] = fa, fb
                    run_glyphs(1, nodes, progs, out, "mergers", f"hint replacement at {masks}, flags {fa} {fb}", ({}, dict(pshints=False)), h)
            # the points of an open contour are not merged
            for flags in (8, 9, 10, 11):
                nodes = pre + U.contour(seq, 1, {0}, True)
                nodes[a]["flags"] = flags
                progs = [[cmd_of("AlignH", [p]) for p in pts] for pts in ([a, b], [b, a])] + [[cmd_of("SingleLinkV", [a, b])]]
                run_glyphs(1, nodes, progs, out, "mergers", f"open contour, flags {flags}")
                ufos, _ = U.convert(U.font([gl(name=f"g{i}", nodes=nodes, tth=p) for i, p in enumerate(progs)], before=U.tt_records(ST, ZN)))
                for i, p in enumerate(progs):
                    got = [v for c in parse(ufos[0][f"g{i}"].lib, out, "open") for k, v in sorted(c.items()) if k.startswith("point")]
                    if len(set(got)) != 2:
                        out.fail("mergers/open", f"open contour {seq} with the flags {flags}, {p}: both ends are called {got}")


SN = ["", "a", "v00", "a#00", "h00"]


def run_stems(payload, out):
    na, nb = payload
    nodes = U.contour(("line", "line"))
    for names in product(SN, repeat=na + nb):
        stems = {
            "ttStemsV": [(100 * i, n, tuple(10 * j + i for j in range(6))) for i, n in enumerate(names[:na])],
            "ttStemsH": [(200 + i, n, tuple(10 * j + i for j in range(6))) for i, n in enumerate(names[na:])],
        }
        out.case = ("stems", payload)
        out.state(repr(names))
        progs = [cmd_of("SingleLinkV", [0, 1], stem=i) for i in range(na)] + [cmd_of("SingleLinkH", [1, 2], stem=i) for i in range(nb)]
        data = U.font([gl(name="g", nodes=nodes, tth=progs)], before=U.tt_records(stems, ZN))
        (ufo,), _ = U.convert(data)
        what = f"stems {names[:na]} {names[na:]}"
        got = names_of(ufo, stems, out, what)
        lib = ufo.lib.get(LIB, {}).get("stems", {})
        if len(lib) != na + nb:
            out.fail("stems/count", f"{what}: {U.plain(lib)}")
        for d in ("ttStemsV", "ttStemsH"):
            for (v, n, p), g in zip(stems[d], got[d]):
                if n and list(names).count(n) == 1 and g != n and "" not in names and not any(g.startswith(x) for x in names if x != n):
                    out.fail("stems/name", f"{what}: {n} is called {g}")
                if n and g != n and not g.startswith(n + "#"):
                    out.fail("stems/name", f"{what}: {n} is called {g}")
                if g in lib:
                    out.eq(U.plain(lib[g]), dict(width=v, horizontal=d == "ttStemsV", round=U.tt_rounds(p)), "stems/entry", what)
        check([ufo], "g", nodes, progs, out, what, got, "stems/commands")


def run_rounds(_, out):
    tabs = list(product((0, 9, 300), repeat=6))
    for lo in range(0, len(tabs), 81):
        part = tabs[lo : lo + 81]
        stems = {
            "ttStemsV": [(1000 + i, f"V{i}", p) for i, p in enumerate(part)],
            "ttStemsH": [(2000 + i, f"H{i}", p[::-1]) for i, p in enumerate(part)],
        }
        (ufo,), _ = U.convert(U.font([gl(name="g")], before=U.tt_records(stems, ZN)))
        lib = ufo.lib[LIB]["stems"]
        out.eq(len(lib), 2 * len(part), "rounds/count", "number of stems")
        for d in stems:
            for v, n, p in stems[d]:
                out.state(repr((d, p)))
                out.eq(U.plain(lib.get(n)), dict(width=v, horizontal=d == "ttStemsV", round=U.tt_rounds(p)), "rounds", f"stem with the ppms {p}")
                out.trans()
        out.trace()


def text_of(d):
    """Sortable form of a lib entry"""
    return repr(sorted((k, sorted(v.items()) if isinstance(v, dict) else v) for k, v in d.items()))


def run_zones(_, out):
    for nt, nb in product(range(4), repeat=2):
        zones = {
            "ttZonesT": [(500 + i * 10, 5 * i, f"t{i}") for i in range(nt)],
            "ttZonesB": [(-i * 10, -5 - i, f"b{i}") for i in range(nb)],
        }
        idx = range(nt + nb)
        uni = [(z, p) for z in idx for p in (9, 12)]
        sets = [()] + [(x,) for x in uni] + list(permutations(uni, 2))
        for sel in sets:
            deltas = [(z, p, (8, 0)[k] if len(sel) > 1 and p == 9 else -8) for k, (z, p) in enumerate(sel)]
            want = {}
            for i, (p, w, n) in enumerate(zones["ttZonesB"] + zones["ttZonesT"]):
                want[n] = dict(position=p, top=i >= nb, width=w)
                for z, ppm, sh in deltas:
                    if z == i:
                        want[n].setdefault("delta", {})[str(ppm)] = sh
            out.state(repr((nt, nb, sel)))
            (ufo,), _ = U.convert(U.font([gl(name="g")], before=U.tt_records(None, zones, deltas)))
            out.eq(U.plain(ufo.lib.get(LIB, {}).get("zones", {})), want, "zones", f"{zones} {deltas}")
            out.trans()
            out.trace()
    # zones which share a name are all kept, and everything refers to the right one
    nodes = outline(1)
    for names in [t for k in range(1, 5) for t in product(("a", "b", ""), repeat=k)]:
        for nb in range(len(names) + 1):
            allz = [(100 * i, 5 + i, n) for i, n in enumerate(names)] + [(777, 3, "last")]
            zones = {"ttZonesB": allz[:nb], "ttZonesT": allz[nb:]}
            out.state(repr((names, nb)))
            what = f"zones {names}, {nb} of them on the bottom side"
            cmds = [cmd_of("AlignBottom", [1], zone=i) if i < nb else cmd_of("AlignTop", [1], zone=i - nb) for i in range(len(allz))]
            deltas = [(i, 9, i + 1) for i in range(len(allz))]
            (ufo,), _ = U.convert(U.font([gl(name="g", nodes=nodes, tth=cmds)], before=U.tt_records(None, zones, deltas)))
            used = [g.get("zone") for g in parse(ufo["g"].lib, out, what)]
            lib = U.plain(ufo.lib.get(LIB, {}).get("zones", {}))
            want = [dict(position=p, top=i >= nb, width=w, delta={"9": i + 1}) for i, (p, w, _) in enumerate(allz)]
            out.eq([lib.get(n) for n in used], want, "zones/command", what)
            out.eq(sorted(map(text_of, lib.values())), sorted(map(text_of, want)), "zones/kept", what)
            for i, (_, _, n) in enumerate(allz):
                if n not in [z[2] for z in allz[:i]]:
                    out.eq(used[i], n, "zones/name", what)
            out.trans()
            out.trace()


def run_manyzones(n, out):
    """Many zones, and many deltas per zone"""
    for nt, nb, nd in ((n, 0, 1), (0, n, 1), (n, n, 1), (1, 1, n), (2, 0, n), (0, 2, n)):
        zones = {
            "ttZonesT": [(500 + i, 5 + i, f"t{i}") for i in range(nt)],
            "ttZonesB": [(-i, -5 - i, f"b{i}") for i in range(nb)],
        }
        # deltas in and against the order of the zones and sizes
        deltas = [(z, 9 + p, (p + z) % 17 - 8) for z in range(nt + nb) for p in range(nd)]
        for dl in (deltas, deltas[::-1]):
            want = {}
            for i, (p, w, nm) in enumerate(zones["ttZonesB"] + zones["ttZonesT"]):
                want[nm] = dict(position=p, top=i >= nb, width=w, delta={str(ppm): sh for z, ppm, sh in deltas if z == i})
            out.state(repr((n, nt, nb, dl[0])))
            (ufo,), _ = U.convert(U.font([gl(name="g")], before=U.tt_records(None, zones, dl)))
            out.eq(U.plain(ufo.lib.get(LIB, {}).get("zones", {})), want, "zones/many", f"{nt}+{nb} zones, {nd} deltas each")
            out.trans()
            out.trace()


def stems_by_command(stems, out, what, fp):
    """The stem every command refers to has the contents of the stored one"""
    nodes = U.contour(("line", "line"))
    progs = [cmd_of("SingleLinkV", [0, 1], stem=i) for i in range(len(stems["ttStemsV"]))]
    progs += [cmd_of("SingleLinkH", [1, 2], stem=i) for i in range(len(stems["ttStemsH"]))]
    (ufo,), _ = U.convert(U.font([gl(name="g", nodes=nodes, tth=progs)], before=U.tt_records(stems, ZN)))
    lib = U.plain(ufo.lib.get(LIB, {}).get("stems", {}))
    want = [dict(width=v, horizontal=d == "ttStemsV", round=U.tt_rounds(p)) for d in ("ttStemsV", "ttStemsH") for v, _, p in stems[d]]
    used = [c.get("stem") for c in parse(ufo["g"].lib, out, what)]
    out.eq([lib.get(x) for x in used], want, f"{fp}/command", what)
    out.eq(len(set(used)), len(want), f"{fp}/names", f"{what}: {used}")
    out.eq(sorted(map(text_of, lib.values())), sorted(map(text_of, want)), f"{fp}/kept", what)
    out.trans()
    out.trace()


def run_manystems(n, out):
    for na, nb in ((n, 0), (0, n), (n, n)):
        for name in ("", "same", "s{}"):
            stems = {d: [(off + i, name.format(i), tuple(10 * j + i for j in range(6))) for i in range(k)] for d, k, off in (("ttStemsV", na, 1000), ("ttStemsH", nb, 3000))}
            out.state(repr((na, nb, name)))
            stems_by_command(stems, out, f"{na}+{nb} stems called {name!r}", "stems/many")


def run_equalstems(n, out):
    """Stems with the same width, rounding or name are all kept"""
    p1, p2 = (0, 10, 20, 30, 40, 50), (0, 11, 21, 31, 41, 51)
    menu = list(product((80, 90), ("", "a"), (p1, p2)))
    for sel in product(menu, repeat=n):
        for na in (0, n) if n > 2 else range(n + 1):
            stems = {"ttStemsV": list(sel[:na]), "ttStemsH": list(sel[na:])}
            out.state(repr((sel, na)))
            stems_by_command(stems, out, f"stems {sel}, {na} of them vertical", "stems/equal")


def run_settings(_, out):
    S = {1272: ("stemsnaplimit", 68), 1274: ("zoneppm", 48), 1275: ("codeppm", None), 1276: (None, None)}
    from vfbLib.enum import T

    ids = [int(T.stemsnaplimit), int(T.zoneppm), int(T.codeppm), int(T.dropoutppm)]
    keys = ["stemsnaplimit", "zoneppm", "codeppm", "dropoutppm"]
    defaults = [68, 48, None, 255]
    vals = (None, 0, 48, 68, 255, 65535)
    for combo in product(vals, repeat=4):
        if sum(v is not None for v in combo) > 2 and len(set(combo)) > 2:
            continue
        st = {i: v for i, v in zip(ids, combo) if v is not None}
        out.state(repr(combo))
        (ufo,), _ = U.convert(U.font([gl(name="g")], before=U.tt_records(settings=st)))
        want = {k: v for k, v, d in zip(keys, combo, defaults) if v is not None and v != d}
        out.eq(U.plain(ufo.lib.get(LIB, {})), want, "settings", f"settings {combo}")
        out.trans()
        out.trace()


def run_cvt(_, out):
    vals = (0, 1, -1, 255, 256, 32767, -32768)
    for k in range(0, 4):
        for t in product(vals, repeat=k):
            out.state(repr(t))
            data = U.font([gl(name="g")], before=[(1261, b"".join(R.i16(v) for v in t))])
            (ufo,), _ = U.convert(data)
            got = U.plain(ufo.lib.get(TTI, {})).get("controlValue", {})
            out.eq(got, {str(i): v for i, v in enumerate(t)}, "cvt", f"control values {t}")
            out.trans()
    for n in (10, 127, 128, 255, 256, 257, 300, 1000, 5000):
        for f in (lambda i: 0, lambda i: i % 7 * (i % 3 - 1), lambda i: i * 37 % 65536 - 32768):
            t = [f(i) for i in range(n)]
            (ufo,), _ = U.convert(U.font([gl(name="g")], before=[(1261, b"".join(R.i16(v) for v in t))]))
            got = U.plain(ufo.lib.get(TTI, {})).get("controlValue", {})
            out.eq(got, {str(i): v for i, v in enumerate(t)}, "cvt", f"{n} control values")
            out.trans()
    out.trace()


MAXP = ["maxZones", "maxTwilightPoints", "maxStorage", "maxFunctionDefs", "maxInstructionDefs", "maxStackElements"]


def run_together(m, out):
    """Control values, programs and limits of a font, in any combination and
    order; hinting data of the other kind beside them"""
    from itertools import permutations

    from mc.codec import tt_base, ttinfo

    def info(limits):
        d = {k: 0 if isinstance(v, int) else v for k, v in tt_base().items()}
        d[0x54] = (0, 0)
        d.update({0x33 + i: v for i, v in enumerate(limits)})
        return b"".join(ttinfo(d)[1]) + b"\x32"

    parts = {"cvt": (1261, bytes([0, 10, 0, 20])), "prep": (1262, b"\xb0\x01\x21"), "fpgm": (1263, b"\x2d")}
    hints = U.tt_records({"ttStemsV": [(80, "a", (0, 1, 2, 3, 4, 5))], "ttStemsH": []}, {"ttZonesT": [(500, 10, "xh")], "ttZonesB": []}, [(0, 9, 1)], {1275: 90})
    for limits in (None, [0] * 6, [2, 3, 5, 7, 11, 13], [0, 0, 0, 0, 0, 1], [1, 0, 0, 0, 0, 0]):
        parts["info"] = (1264, info(limits or []))
        names = ["cvt", "prep", "fpgm"] + ["info"] * (limits is not None)
        for k in range(len(names) + 1):
            for order in permutations(names, k):
                for extra in (0, 1):
                    recs = [parts[n] for n in order]
                    (ufo, *_), _ = U.convert(U.font([gl(name="g", num_masters=m)], m, before=(hints if extra else []) + recs))
                    want = {}
                    if "cvt" in order:
                        want["controlValue"] = {"0": 2560, "1": 5120}
                    for n, key in (("prep", "controlValueProgram"), ("fpgm", "fontProgram")):
                        if n in order:
                            want[key] = parts[n][1]
                    if "info" in order and (want or any(limits)):
                        want.update(zip(MAXP, limits))
                    if want:
                        want["formatVersion"] = "1"
                    got = dict(U.plain(ufo.lib.get(TTI, {})))
                    for key in ("controlValueProgram", "fontProgram"):
                        if key in got:
                            got[key] = assemble(got[key])
                    what = f"{order} with limits {limits}, {m} masters"
                    out.state(what + str(extra))
                    out.eq(got, want, "together", what)
                    if extra != (LIB in ufo.lib):
                        out.fail("together/hints", f"{what}: {list(ufo.lib)}")
                    out.trans()
        out.trace()


def assemble(text):
    """Bytes of the assembly as read by the fontTools assembler"""
    from fontTools.ttLib.tables.ttProgram import Program

    p = Program()
    p.fromAssembly(text.strip().splitlines())
    return p.getBytecode()


def program(where, code):
    if where == "fpgm":
        return U.font([gl(name="g")], before=[(1263, code)])
    if where == "prep":
        return U.font([gl(name="g")], before=[(1262, code)])
    from mc.codec import imp

    return U.font([gl(name="g", nodes=U.contour(("line", "line")), imported=imp(bytecode=code)), gl(name="h")])


def result(where, ufo):
    if where == "fpgm":
        return ufo.lib.get(TTI, {}).get("fontProgram")
    if where == "prep":
        return ufo.lib.get(TTI, {}).get("controlValueProgram")
    if TTI in ufo["h"].lib:
        return "in the wrong glyph"
    d = ufo["g"].lib.get(TTI)
    if d is None:
        return None
    from fontTools.pens.hashPointPen import HashPointPen

    hp = HashPointPen(ufo["g"].width, glyphSet=ufo)
    ufo["g"].drawPoints(hp)
    if d.get("id") != hp.hash or d.get("formatVersion") != "1":
        return f"bad id or version: {d}"
    return d.get("assembly")


def run_hashes(m, out):
    """The id of a glyph program belongs to the outline and width of the glyph
    in the same master"""
    from fontTools.pens.hashPointPen import HashPointPen

    from mc.codec import imp

    shapes = [[], U.contour(("line", "line"), m), U.contour(("line", "curve"), m, set(range(m))), U.contour(("qcurve", "line", "qcurve"), m), outline(m)]
    glyphs, code = [], b"\xb0\x05\x60"
    for i, nodes in enumerate(shapes):
        for w in (0, 500, 1000, -20, 40000):
            for step in (0, 7):
                for lst in ([], [0], [1, 0]):
                    glyphs.append(gl(name=f"g{len(glyphs)}", num_masters=m, nodes=nodes, metrics=[(w + step * k, 0) for k in range(m)],
                                     components=[comp(b, 100 * j, m) for j, b in enumerate(lst)],
                                     **({} if (i + len(lst)) % 4 == 3 else {"imported": imp(bytecode=code)})))  # fmt: skip
    glyphs = [gl(name="base0", num_masters=m, metrics=[(400, 0)] * m, nodes=shapes[3]), gl(name="base1", num_masters=m, metrics=[(0, 0)] * m, nodes=shapes[2])] + glyphs
    for minimal in (False, True):
        ufos, _ = U.convert(U.font(glyphs, m), minimal=minimal)
        for mi, ufo in enumerate(ufos):
            for g in glyphs:
                u = ufo[g["name"]]
                d = u.lib.get(TTI)
                out.state(repr((m, mi, minimal, g["name"])))
                if ("imported" in g) != (d is not None):
                    out.fail("hash/program", f"{g['name']}, master {mi}: program {d}")
                    continue
                if d is None:
                    continue
                hp = HashPointPen(u.width, glyphSet=ufo)
                u.drawPoints(hp)
                if d.get("id") != hp.hash:
                    out.fail("hash/id", f"{g['name']} of {m} masters, width {u.width}, master {mi}: id {d.get('id')}, outline {hp.hash}")
                if assemble(d["assembly"]) != code:
                    out.fail("hash/assembly", f"{g['name']}, master {mi}: {d}")
                out.trans()
        out.trace()


def check_program(where, code, out):
    out.state(where + code.hex())
    (ufo,), _ = U.convert(program(where, code))
    text = result(where, ufo)
    try:
        ok = text is not None and assemble(text) == code
    except Exception as e:
        ok, text = False, f"{text} ({type(e).__name__}: {e})"
    if not ok:
        out.fail(f"program/{where}", f"{code.hex()}: {text!r}")
    out.trans()


# ADD, PUSHB[1], PUSHW[1], IF, ELSE, EIF, FDEF, ENDF, SVTCA[1]
ATOMS = [b"\x60", b"\xb0\x05", b"\xb8\xff\x38", b"\x58", b"\x1b", b"\x59", b"\x2c", b"\x2d", b"\x01"]


def run_programs(payload, out):
    k, where = payload
    for seq in product(range(len(ATOMS)), repeat=k):
        # consecutive pushes are joined by any disassembler
        if any(a in (1, 2) and b in (1, 2) for a, b in zip(seq, seq[1:])):
            continue
        # well nested
        depth, ok = [], True
        for x in seq:
            if x in (3, 6):
                depth.append(x)
            elif x == 4:
                ok = ok and bool(depth) and depth[-1] == 3
            elif x == 5:
                ok = ok and bool(depth) and depth.pop() == 3
            elif x == 7:
                ok = ok and bool(depth) and depth.pop() == 6
        if not ok or depth:
            continue
        check_program(where, b"".join(ATOMS[x] for x in seq), out)
    out.trace()


def run_opcodes(_, out):
    from fontTools.ttLib.tables.ttProgram import Program

    codes = [bytes([x]) for x in range(256)]
    codes += [bytes([0xB0 + n - 1]) + bytes(range(100, 100 + n)) for n in range(1, 9)]
    codes += [bytes([0xB8 + n - 1]) + b"".join(bytes([255 - i, i]) for i in range(n)) for n in range(1, 9)]
    codes += [bytes([0x40, n]) + bytes(range(n)) for n in (9, 100, 255)]
    for code in codes:
        try:
            p = Program()
            p.fromBytecode(code)
            if assemble("\n".join(p.getAssembly())) != code:
                continue
        except Exception:
            continue
        for where in ("fpgm", "prep", "glyph"):
            check_program(where, code, out)
    out.trace()


KINDS = {
    "points": run_points, "params": run_params, "seqs": run_seqs, "composites": run_composites, "mergers": run_mergers,
    "stems": run_stems, "rounds": run_rounds, "zones": run_zones, "manyzones": run_manyzones, "manystems": run_manystems, "equalstems": run_equalstems, "settings": run_settings, "cvt": run_cvt,
    "programs": run_programs, "opcodes": run_opcodes, "hashes": run_hashes, "together": run_together,
}  # fmt: skip
