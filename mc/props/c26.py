"""The masters of a multiple master font and its designspace document."""
import os
import shutil
import tempfile
from itertools import permutations, product
from pathlib import Path

from mc import ref as R
from mc import ufo as U
from mc.codec import gl

PID = "C26"
RULE = (
    "0 to 4 axes with all combinations of names, all numbers of mappings, all orders of the master records, all numbers of stored "
    "master names, all instance lists of a value grid; written documents are read again from several folders; a state is the set "
    "of axis, master and instance records"
)
BOUNDS = {
    "quick": "all 6^2 pairs of axis names and 4 longer lists, 0-10 mappings per axis for 1 and 2 axes, 24 record orders, up to 3 instances, 5 output folders",
    "thorough": "all names up to 3 axes, 0-10 mappings for 3 axes, up to 4 instances, all orders of 8 master records of which 4 vary",
}
CHUNK = 1
CASE_LIMIT = 400
NAMES = ["Weight", "Width", "Optical Size", "Serif", "Slant", "ab"]
TAGS = {"Weight": "wght", "Width": "wdth", "Optical Size": "opsz", "Serif": "SERF", "Slant": "SLAN", "ab": "AB"}


def locs(n):
    return [tuple(float(i >> k & 1) if k < n else 0.0 for k in range(4)) for i in range(2**n)]


def build(names, mappings=None, instances=None, mnames=None, order=None, locations=None, info=(), extra=()):
    n = len(names)
    m = 2**n
    locations = locations or locs(n)
    recs = [*info]
    if n:
        recs += U.axes_records(names, locations, mappings, instances)
    recs += extra
    mnames = [f"M{i} " for i in range(m)] if mnames is None else mnames
    rows = []
    for i in range(m):
        row = [s for s in [U.s(1504, mnames[i])] if i < len(mnames)] if i < len(mnames) else []
        row.append((1505, R.u32(i + 1) + R.dbl(*locations[i])))
        rows.append(row)
    names_only = [r[0] for r in rows if len(r) > 1]
    loc_only = [r[-1] for r in rows]
    recs += names_only + [loc_only[i] for i in order or range(m)]
    recs += [U.psrec(ascender=700 + i) for i in range(m)]
    g = gl(num_masters=m, name="A", metrics=[(500 + i, 0) for i in range(m)], nodes=U.contour(("line", "line"), m))
    recs.append((R.GLYPH, R.glyph(g)))
    return R.vfb_file(recs, masters=m)


def ref_axes(names, mappings):
    res = []
    for i, nm in enumerate(names):
        mp = mappings[i] if mappings else []
        us = [a for a, _ in mp]
        res.append(
            dict(name=nm, tag=TAGS[nm], map=[(a, round(b * 1000)) for a, b in mp],
                 minimum=min(us) if us else 0, default=min(us) if us else 0, maximum=max(us) if us else 1000)
        )  # fmt: skip
    return res


def view_axes(ds):
    return [dict(name=a.name, tag=a.tag, map=[tuple(x) for x in a.map], minimum=a.minimum, default=a.default, maximum=a.maximum) for a in ds.axes]


def check(out, what, names, mappings=None, instances=None, mnames=None, order=None, locations=None, info=(), family="Untitled", style="regular"):
    data = build(names, mappings, instances, mnames, order, locations, info)
    n, m = len(names), 2 ** len(names)
    out.state(repr((names, mappings, instances, mnames, order, locations, family)))
    ufos, ds = U.convert(data)
    out.trans()
    if len(ufos) != m:
        out.fail("masters/count", f"{what}: {len(ufos)} UFOs instead of {m}")
        return
    for i, ufo in enumerate(ufos):
        got = (ufo["A"].width, ufo.info.ascender, U.ufo_points(ufo["A"])[0][0][1][3])
        want = (500 + i, 700 + i, (13 + 100 * i - 3, (7 + 0) % 31 - i))
        out.eq(got, want, "masters/content", f"{what}: UFO {i}")
    if not n:
        if ds is not None:
            out.fail("none", f"{what}: designspace of a single master font")
        return
    names_full = [x.strip() for x in (mnames if mnames is not None else [f"M{i}" for i in range(m)])]
    names_full += [f"m{i}" for i in range(len(names_full), m)]
    locations = locations or locs(n)
    compare(out, what, ds, names, mappings, instances, names_full, locations, family, style)
    out.trace()


def compare(out, what, ds, names, mappings, instances, mnames, locations, family, style):
    n, m = len(names), 2 ** len(names)
    out.eq(view_axes(ds), ref_axes(names, mappings), "axes", what)
    out.eq(
        [(s.name, s.location, s.familyName, s.styleName) for s in ds.sources],
        [(mnames[i], {names[k]: 1000 * locations[i][k] for k in range(n)}, family, f"Master {i}") for i in range(m)],
        "sources", what,
    )  # fmt: skip
    out.eq([Path(s.filename).name for s in ds.sources], ["font.ufo"] + [f"font-{i}.ufo" for i in range(1, m)], "files", what)
    inst = instances or []
    out.eq(
        [(i.styleName, i.userLocation, i.familyName, i.filename, i.styleMapFamilyName, i.styleMapStyleName) for i in ds.instances],
        [(nm, {names[k]: v[k] for k in range(n)}, family, f"instance_ufo/{family}-{nm}.ufo", f"{family} {nm}".strip(), style) for nm, v in inst],
        "instances", what,
    )  # fmt: skip
    if len({i.name for i in ds.instances}) != len(inst):
        out.fail("instances/names", f"{what}: {[i.name for i in ds.instances]}")
    labels = [[(x.name, x.userValue) for x in a.axisLabels] for a in ds.axes]
    want = [[(nm, v[0]) for nm, v in inst]] if n == 1 else [[] for _ in names]
    out.eq(labels, want, "labels", what)


def mapping(k, base=100.0):
    return [(base + 87.5 * j, round(j * 0.0915, 4)) for j in range(k)]


def cases(tier):
    q = tier == "quick"
    yield "names", [0, None]
    for f in range(6):
        yield "names", [1, f]
        yield "names", [2, f]
        if not q:
            yield "names", [3, f]
    yield "names", [4, None]
    for a in range(11):
        yield "mappings", [a, 1 if q else 2]
    yield "grid", None
    yield "orders", tier
    yield "mnames", None
    for n in (1, 2):
        for k in range(4 if q else 5):
            yield "instances", [n, k]
    yield "family", None
    yield "written", None
    yield "aniso", None
    yield "again", None


def run_names(payload, out):
    n, first = payload
    if n == 4:
        lists = [NAMES[:4], NAMES[2:], NAMES[:3], NAMES[::-1][:4]]
    elif n == 0:
        lists = [[]]
    else:
        lists = [list(p) for p in permutations(NAMES, n) if p[0] == NAMES[first]]
    for names in lists:
        for mp in (None, [mapping(2, 10.0 * i) for i in range(len(names))]):
            check(out, f"axes {names}, mappings {mp}", names, mp)


def run_mappings(payload, out):
    a, extra = payload
    check(out, f"{a} mappings", ["Weight"], [mapping(a)])
    for b in range(11):
        check(out, f"{a} + {b} mappings", ["Weight", "Width"], [mapping(a), mapping(b, -50.0)])
        for c in range(0, 11) if extra > 1 else (0, 3):
            check(out, f"{a} + {b} + {c} mappings", ["Weight", "Width", "Serif"], [mapping(a), mapping(b, -50.0), mapping(c, 7.0)])


def run_grid(_, out):
    """Values of mappings in all orders"""
    us = [0.0, -10.5, 400.0, 1000.0]
    dv = [0.0, 0.0005, 0.1666, 1.0, -0.25]
    for p in product(us, repeat=2):
        for d in product(dv, repeat=2):
            check(out, f"mapping {p} {d}", ["Weight"], [list(zip(p, d))])
    for p in permutations(us, 3):
        check(out, f"mapping {p}", ["Width", "Serif"], [list(zip(p, (0.0, 0.5, 1.0))), list(zip(p[::-1], (0.0, 0.3, 1.0)))])


def run_orders(tier, out):
    for n in (1, 2):
        for order in permutations(range(2**n)):
            check(out, f"order of master locations {order}", NAMES[:n], None, order=order)
    for p in permutations(range(4)):
        check(out, f"order {p}", NAMES[:3], None, order=[*p, 4, 5, 6, 7])
        if tier == "thorough":
            for q in permutations(range(4, 8)):
                check(out, f"order {p} {q}", NAMES[:3], None, order=[*p, *q])
    # other locations than the corners
    for a, b in product((0.0, 0.25, 1.0, -0.5, 0.333), repeat=2):
        check(out, f"locations {a} {b}", ["Weight"], None, locations=[(a, 0.0, 0.0, 0.0), (b, 0.5, 0.0, 0.0)])
        check(out, f"locations {a} {b}", ["Weight", "Width"], None, locations=[(a, b, 0.0, 0.0), (b, a, 1.0, 1.0), (0.0, 1.0, 0.0, 0.0), (1.0, 1.0, 0.0, 0.0)])


def run_mnames(_, out):
    for n in (0, 1, 2, 3):
        m = 2**n
        for k in range(m + 1):
            for suffix in ("", " ", "  x"):
                mn = [f"Wt{i}{suffix}" for i in range(k)]
                check(out, f"master names {mn}", NAMES[:n], mnames=mn)


def run_instances(payload, out):
    n, k = payload
    vals = [0.0, 100.0, 350.5, 1000.0, -20.25]
    vecs = [list(v) + [0.0] * (4 - n) for v in product(vals[: 5 if n == 1 else 3], repeat=n)]
    nm = ["Regular", "Bold", "", "Extra Bold"]
    for vs in product(vecs, repeat=k) if len(vecs) ** k < 800 else product(vecs[:4], repeat=k):
        inst = [(nm[i], v) for i, v in enumerate(vs)]
        check(out, f"instances {inst}", NAMES[:n], [mapping(2)] * n, inst)
    # values of axes the font does not have
    inst = [("Regular", [1.0, 2.0, 3.0, 4.0])] * k
    if len(inst) < 2:
        check(out, "instances with 4 values", NAMES[:n], [mapping(2)] * n, inst)


def run_family(_, out):
    for pref in (None, "", "Pref"):
        for sm in (None, "", "Map"):
            for style in (None, 0, 1, 32, 33, 64):
                info = []
                if pref is not None:
                    info.append(U.s(1024, pref))
                if sm is not None:
                    info.append(U.s(1027, sm))
                if style is not None:
                    info.append(U.u(1267, style))
                family = pref or ("Untitled" if pref is None else ("Untitled" if sm is None else sm))
                st = {None: "regular", 0: "regular", 1: "italic", 32: "bold", 33: "bold italic", 64: "regular"}[style]
                for seq in (info, info[::-1]):
                    check(out, f"family names {pref!r} {sm!r}, style {style}", ["Weight"], None, [("Bold", [1.0, 0, 0, 0])], info=seq, family=family, style=st)


def run_aniso(_, out):
    """Anisotropic interpolation has no place in a designspace, and no effect on the rest"""
    from mc.flat import changed, flat

    maps = [[], [(0, 0), (1000, 1000)], [(0, 0), (500, 600), (1000, 1000)], [(1, 0)]]
    for names in (NAMES[:1], NAMES[:2], NAMES[:3]):
        want, ds = U.convert(build(names))
        for k in sorted({len(names), 4 if len(names) < 3 else 3}):
            for graph in product(maps, repeat=k):
                b = b"".join(R.num(len(ax)) + b"".join(R.nums([*x]) for x in ax) for ax in graph)
                what = f"{names} anisotropic {graph}"
                out.state(what)
                got, ds2 = U.convert(build(names, extra=[(1523, b)]))
                if len(got) != len(want) or any(changed(flat(a), flat(b)) for a, b in zip(got, want)):
                    out.fail("aniso/masters", f"{what}: the masters differ")
                if view_axes(ds) != view_axes(ds2) or [s.location for s in ds.sources] != [s.location for s in ds2.sources]:
                    out.fail("aniso/designspace", f"{what}: {view_axes(ds2)}")
                out.trans()
    out.trace()


def run_written(_, out):
    """The written document finds its masters from anywhere"""
    from fontTools.designspaceLib import DesignSpaceDocument
    from ufoLib2 import Font

    from vfbLib.ufo.builder import VfbToUfoBuilder

    top = Path(tempfile.mkdtemp(prefix="mc26"))
    cwd = os.getcwd()
    try:
        for i in ("a", "a/b", "d"):
            (top / i).mkdir()
        for n in (1, 2):
            names = NAMES[:n]
            inst = [("Regular", [0.0] * 4), ("Mid", [500.0, 100.25, 0.0, 0.0])]
            for mp in (None, [mapping(3)] * n):
                data = build(names, mp, inst)
                for start, target in ((".", "font.ufo"), (".", "a/font.ufo"), ("a", "b/font.ufo"), ("d", "../a/b/font.ufo"), (".", "a/font.v1.ufo"), (".", "font-1.2 b.ufo"), (".", "d/font-1.ufo"), (".", str(top / "d/font.ufo"))):
                    for form in ("ufo", "ufoz", "json"):
                        os.chdir(top / start)
                        what = f"{n} axes, written to {target.replace(str(top), '/...')} as {form}"
                        out.state(what + repr(mp))
                        v = U.read(data)
                        p = Path(target)
                        if form == "ufoz":
                            p = p.with_suffix(".ufoz")
                        VfbToUfoBuilder(v).write(p, overwrite=True, silent=True, ufoz=form == "ufoz", json=form == "json")
                        folder = (top / start / p).parent.resolve()
                        dsp = folder / p.with_suffix(".designspace").name
                        ext = p.suffix if form != "json" else ".json"
                        masters = [p.stem + ext] + [f"{p.stem}-{i}{ext}" for i in range(1, 2**n)]
                        out.eq(sorted(f.name for f in folder.iterdir() if f.name.startswith("font")), sorted(masters + [dsp.name]), "written/files", what)
                        os.chdir("/")
                        ds = DesignSpaceDocument.fromfile(dsp)
                        out.trans()
                        out.eq([s.filename for s in ds.sources], masters, "written/sources", what)
                        for i, s in enumerate(ds.sources):
                            if not Path(s.path).exists():
                                out.fail("written/missing", f"{what}: source {i} refers to {s.filename}")
                                continue
                            if form == "json":
                                f = Font.json_load(Path(s.path).open("rb"))
                            else:
                                f = Font.open(s.path)
                            out.eq((f["A"].width, f.info.ascender), (500 + i, 700 + i), "written/master", f"{what}: source {i}")
                        if form == "ufo" and p.name == "font.ufo":
                            compare(out, what, ds, names, mp, inst, [f"M{i}" for i in range(2**n)], locs(n), "Untitled", "regular")
                        out.trace()
                        for f in list(folder.iterdir()):
                            if f.name.startswith("font"):
                                shutil.rmtree(f) if f.is_dir() else f.unlink()
    finally:
        os.chdir(cwd)
        shutil.rmtree(top)


def run_again(_, out):
    """Building the document again gives the same"""
    from vfbLib.ufo.builder import VfbToUfoBuilder

    for n in (1, 2, 3):
        inst = [("Regular", [0.0] * 4), ("Mid", [500.0] * 4)]
        v = U.read(build(NAMES[:n], [mapping(3)] * n, inst))
        b = VfbToUfoBuilder(v)
        for k in range(3):
            _, ds = b.get_ufos_designspace(Path("/nowhere/font.ufo"), silent=True)
            out.state(repr((n, k)))
            compare(out, f"{n} axes, {k + 1}. time", ds, NAMES[:n], [mapping(3)] * n, inst, [f"M{i}" for i in range(2**n)], locs(n), "Untitled", "regular")
            out.trans()
        out.trace()


KINDS = {k[4:]: v for k, v in list(globals().items()) if k.startswith("run_")}
