"""Outlines in the UFO masters: every outline grammar up to a size, in every
master, with every choice of masters in which contours end at their start."""
from itertools import combinations, product

from mc import ufo as U
from mc.codec import gl
from mc.props.c16 import outline_shapes

PID = "C19"
RULE = (
    "all contours over all well-formed segment type sequences x open / closed / ending at the start point in each "
    "subset of the masters x smooth flags, pairs and triples of contours; conversion with and without PS hints and "
    "minimal; a state is an outline"
)
BOUNDS = {
    "quick": "contours of up to 5 segments (1 and 2 masters) or 3 (4 masters), pairs of up to 2, triples of up to 1; all smooth flag sets for up to 3 segments; boundary coordinates; all coincidences of neighbouring points in contours of up to 2 segments",
    "thorough": "contours of up to 7 segments (1 and 2 masters), 5 (4 masters), 3 (8 masters), pairs of up to 3, triples of up to 1; all smooth flag sets for up to 4 segments",
}
CHUNK = 1
CASE_LIMIT = 120


def subsets(n):
    for k in range(n + 1):
        yield from (list(c) for c in combinations(range(n), k))


def specs(tier, masters):
    """[[(seq, open, closed_eq list, smooth), ...contours]]"""
    big = {1: 5, 2: 5, 4: 3, 8: 2, 16: 1} if tier == "quick" else {1: 7, 2: 7, 4: 5, 8: 3, 16: 2}
    for k in range(big[masters] + 1):
        for seq in U.type_seqs(k):
            eqs = list(subsets(masters)) if masters <= 2 or k <= 2 else [[], list(range(masters)), [0], [1, 2]]
            if masters >= 8:
                eqs = [[], list(range(masters)), [masters - 1], [0, 7], list(range(4)), list(range(masters - 1))]
            for eq in eqs if seq else [[]]:
                for op in (False, True):
                    if op and seq and seq[-1] == "qcurve":
                        continue
                    yield [(seq, op, eq, 0b1010110)]
    for k in range((3 if tier == "quick" else 4) + 1):
        if masters > 2:
            break
        for seq in U.type_seqs(k):
            for sm in range(1 << (k + 1)):
                for eq in ([], list(range(masters))) if seq else ([],):
                    for op in (False, True):
                        if op and seq and seq[-1] == "qcurve":
                            continue
                        yield [(seq, op, eq, sm)]
    forms = []
    for sh in outline_shapes(2 if tier == "quick" or masters > 2 else 3):
        ((seq, form),) = sh
        forms.append((seq, form == "open", list(range(masters)) if form == "eq" else [], 0b01101))
    for a, b in product(forms, repeat=2):
        if masters > 1 and len(a[0]) + len(b[0]) > (4 if tier == "quick" else 5):
            continue
        yield [a, b]
    tiny = [f for f in forms if len(f[0]) <= 1]
    for a, b, c in product(tiny, repeat=3):
        yield [a, b, c]


def nodes_of(spec, masters, flat=False):
    nodes = []
    for i, (seq, op, eq, sm) in enumerate(spec):
        nodes += U.contour(tuple(seq), masters, closed_eq=set(eq), open_=op, base=i * 400, smooth=sm, flat=flat)
    return nodes


MODES = {
    "default": {},
    "minimal": {"minimal": True},
    "nohints": {"pshints": False},
}


def cases(tier):
    for m in (1, 2, 4, 8, 16):
        lst = list(specs(tier, m))
        if m >= 8:
            lst = [x for x in lst if len(x) == 1]
        step = 60
        for lo in range(0, len(lst), step):
            for mode in MODES if m < 8 else ("default",):
                yield "outlines", [m, mode, lst[lo : lo + step], False]
        flat = [x for x in lst if len(x) == 1 and len(x[0][0]) <= 3]
        for lo in range(0, len(flat), 200):
            yield "outlines", [m, "default", flat[lo : lo + 200], True]
    for m in (1, 2, 4):
        yield "coords", m
    from mc.props.c16 import coincident

    lst = list(coincident(tier))
    for m in (1, 2):
        for lo in range(0, len(lst), 100):
            for mode in MODES:
                yield "coincident", [m, mode, lst[lo : lo + 100]]


def compare(ufos, glyphs, masters, out, tag, case=None):
    out.eq(len(ufos), masters, f"{tag}/masters", "number of UFO masters")
    for m, ufo in enumerate(ufos):
        for i, g in enumerate(glyphs):
            if case:
                out.case = case(i)
            pts, comps = U.ufo_points(ufo[g["name"]])
            want = [[(t, s, None, p) for t, s, _, p in c] for c in U.ref_points(g["nodes"], m)]
            got = [[(t, s, None, p) for t, s, _, p in c] for c in pts]
            out.eq(got, want, f"{tag}/points", f"glyph {g['name']}, master {m}")
            out.eq(comps, [], f"{tag}/components", f"glyph {g['name']}, master {m}")
            if any(p[2] for c in pts for p in c):
                out.fail(f"{tag}/labels", f"point names in unhinted glyph {g['name']}, master {m}")
            out.trans()


def run_outlines(payload, out):
    masters, mode, specs_, flat = payload
    glyphs = []
    for i, sp in enumerate(specs_):
        out.state(repr((masters, sp, flat)))
        glyphs.append(gl(name=f"g{i}", nodes=nodes_of(sp, masters, flat), num_masters=masters))
    out.case = ("outlines", payload)
    ufos, _ = U.convert(U.font(glyphs, masters), **MODES[mode])
    compare(ufos, glyphs, masters, out, "outlines", lambda i: ("outlines", [masters, mode, [specs_[i]], flat]))
    out.trace(masters)


def run_coincident(payload, out):
    """Neighbouring points that coincide"""
    from mc.props.c16 import coincide

    masters, mode, lst = payload
    glyphs = []
    for i, (seq, modes, op) in enumerate(lst):
        out.state(repr((masters, lst[i])))
        glyphs.append(gl(name=f"g{i}", nodes=coincide(U.contour(tuple(seq), masters, open_=op), modes), num_masters=masters))
    out.case = ("coincident", payload)
    ufos, _ = U.convert(U.font(glyphs, masters), **MODES[mode])
    compare(ufos, glyphs, masters, out, "coincident", lambda i: ("coincident", [masters, mode, [lst[i]]]))
    out.trace(masters)


def run_coords(masters, out):
    vals = [0, 1, -1, 107, 108, -107, -108, 1131, 1132, -1131, -1132, 32767, -32768, 40000, -2147483648, 2147483647]
    from mc.codec import node

    glyphs = []
    for i, (x, y) in enumerate(product(vals, repeat=2)):
        # coordinates are stored relative to the previous point in 32 bits
        if max(abs(x), abs(y)) > 1 << 30 and (x, y) not in ((0, 2147483647), (2147483647, 0)):
            continue
        P = lambda m: (x - (m if x > 0 else -m), y - (m if y > 0 else -m))  # noqa: E731
        o = [(0, 0)] * masters
        nodes = [
            node("move", 0, [[p] for p in o]),
            node("line", 0, [[P(m)] for m in range(masters)]),
            node("curve", 1, [[(0, 0), P(m), (5, 5)] for m in range(masters)]),
            node("line", 0, [[(y % 500, x % 500)] for m in range(masters)]),
        ]
        glyphs.append(gl(name=f"g{i}", nodes=nodes, num_masters=masters))
        out.state(repr((masters, x, y)))
    ufos, _ = U.convert(U.font(glyphs, masters))
    compare(ufos, glyphs, masters, out, "coords")
    out.trace(masters)


KINDS = {"coincident": run_coincident, "outlines": run_outlines, "coords": run_coords}
