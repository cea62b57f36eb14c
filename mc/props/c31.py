"""vfb2tth: the exported TrueType hinting has the values stored in the VFB."""
import json
from io import BytesIO
from itertools import permutations, product

from mc import cli
from mc import ref as R
from mc import ufo as U
from mc.codec import TTINFO, gl, tt_base, ttinfo
from mc.props.c23 import PARAMS, ST, ZN, cmd_of, npts

PID = "C31"
RULE = (
    "all hinting commands with all parameters, all command sequences up to the stated length, all stem and zone name lists over a "
    "menu with duplicates, all rounding tables, all sets of up to 2 deltas, all settings; extracted in memory and with the command "
    "line tool in three formats; a state is a hinting program or a font level table"
)
BOUNDS = {
    "quick": "14 commands x all parameters; sequences of up to 2 commands; stem names 3+2 and zone names 2+3 over 4 names; rounding tables over 3 ppms; up to 300 stems, zones, deltas per zone and hinted glyphs; settings; 3 formats",
    "thorough": "sequences of up to 3 commands, 4 names for 3+3 stems and zones",
}
CHUNK = 1
CASE_LIMIT = 400
NAMES = ["", "a", "b\u00e9", "a#1"]
HEADK = {n: k for k, n in TTINFO}


def cases(tier):
    q = tier == "quick"
    for c in R.TT:
        yield "params", c
    for k in (1, 2) if q else (1, 2, 3):
        for head in product(list(R.TT), repeat=k - 1):
            yield "seqs", [k, list(head)]
    top = 2 if q else 3
    for a in range(4):
        for b in range(top + 1):
            yield "stems", [a, b]
            yield "zones", [b, a]
    yield "rounds", None
    yield "deltas", None
    for n in (9, 10, 11, 40, 128, 300):
        yield "many", n
    yield "settings", None
    yield "glyphs", None
    yield "order", None
    yield "cli", None


def extract(data):
    from vfbLib.tth import extract_truetype_hinting

    v = U.read(data, False, minimal=True, unicode_strings=True)
    return extract_truetype_hinting(v), v


def get(data, out, what):
    """Extract from the unread file and the decompiled file; the file itself
    must not change"""
    got, v = extract(data)
    buf = BytesIO()
    v.write_bytes(buf)
    want = BytesIO()
    v2 = U.read(data)
    v2.write_bytes(want)
    if buf.getvalue() not in (data, want.getvalue()):
        out.fail("changed", f"{what}: the font was changed by the export")
    from vfbLib.tth import extract_truetype_hinting

    full, plain = U.read(data), U.read(data)
    again = extract_truetype_hinting(full)
    out.eq(again, got, "decompiled", f"{what}: export from the decompiled font")
    if full.as_dict() != plain.as_dict():
        out.fail("changed/data", f"{what}: the decompiled font was changed by the export")
    out.eq(extract_truetype_hinting(full), got, "decompiled/twice", f"{what}: second export from the decompiled font")
    return U.plain(got)


def ref_cmd(cmd, stems, zones):
    """The exported form: points stay numbers"""
    pts, d = U.tt_command(cmd, stems, zones)
    p = cmd["params"]
    if "round" in d:
        d["round"] = True
    for k, a in (("shift", "delta"), ("ppm1", "ppm1"), ("ppm2", "ppm2")):
        if k in p:
            d[a] = p[k]
    return {**d, **pts}


def unique(names, got, out, what, fp):
    """The names are pairwise different and derived from the stored ones; a
    name that is not repeated stays"""
    if len(set(got)) != len(names):
        out.fail(f"{fp}/unique", f"{what}: {got}")
    for n, g in zip(names, got):
        if g != n and not g.startswith(n + "#"):
            out.fail(f"{fp}/name", f"{what}: {n!r} is called {g!r}")
        if g != n and names.count(n) == 1 and not any(n.startswith(x + "#") for x in names):
            out.fail(f"{fp}/name", f"{what}: the unique name {n!r} is called {g!r}")


def stem_names(font, stems, out, what):
    """names found by width and direction, which are unique in the stem lists"""
    lib = font.get("stems", {})
    res = {}
    for d in ("ttStemsV", "ttStemsH"):
        res[d] = []
        for v, n, ppms in stems[d]:
            hits = [k for k, s in lib.items() if s["width"] == v and s["horizontal"] is (d == "ttStemsV")]
            if len(hits) != 1:
                out.fail("stems/lost", f"{what}: stem {v} {n!r} of {d} is exported as {hits}: {lib}")
                hits = ["?"]
            res[d].append(hits[0])
            if hits[0] in lib:
                s = lib[hits[0]]
                out.eq(s, dict(width=v, horizontal=d == "ttStemsV", round=U.tt_rounds(ppms)), "stems/entry", f"{what}: {n!r}")
                out.eq(list(s["round"].values()), sorted(s["round"].values()), "stems/order", f"{what}: {n!r}")
    n = sum(len(x) for x in stems.values())
    if len(lib) != n or ("stems" in font) != bool(n):
        out.fail("stems/count", f"{what}: {lib}")
    unique([s[1] for d in stems for s in stems[d]], [x for d in stems for x in res[d]], out, what, "stems")
    return res


def zone_names(font, zones, deltas, out, what):
    """names found by position, which is unique"""
    lib = font.get("zones", {})
    res = {"ttZonesT": [], "ttZonesB": []}
    i = 0
    for d in ("ttZonesB", "ttZonesT"):
        for p, w, n in zones[d]:
            hits = [k for k, z in lib.items() if z["position"] == p]
            if len(hits) != 1:
                out.fail("zones/lost", f"{what}: zone {p} {n!r} is exported as {hits}: {lib}")
                hits = ["?"]
            res[d].append(hits[0])
            want = dict(position=p, top=d == "ttZonesT", width=w)
            dl = {str(ppm): sh for z, ppm, sh in deltas if z == i}
            if dl:
                want["deltas"] = dl
            if hits[0] in lib:
                out.eq(lib[hits[0]], want, "zones/entry", f"{what}: {n!r}")
                if dl:
                    ks = [int(x) for x in lib[hits[0]].get("deltas", {})]
                    out.eq(ks, sorted(ks), "zones/order", f"{what}: {n!r}")
            i += 1
    if len(lib) != i or ("zones" in font) != bool(i):
        out.fail("zones/count", f"{what}: {lib}")
    unique([z[2] for d in ("ttZonesT", "ttZonesB") for z in zones[d]], res["ttZonesT"] + res["ttZonesB"], out, what, "zones")
    return res


def check(data, stems, zones, deltas, glyphs, out, what):
    """glyphs: {name: commands}"""
    got = get(data, out, what)
    font = got["font"]
    sn = stem_names(font, stems, out, what)
    zn = zone_names(font, zones, deltas, out, what)
    want = {n: [ref_cmd(c, sn, zn) for c in cmds] for n, cmds in glyphs.items() if cmds}
    out.eq(got["glyphs"], want, "glyphs", what)
    out.eq(list(got["glyphs"]), list(want), "glyphs/order", what)
    out.trans(1 + sum(map(len, glyphs.values())))
    out.trace()
    return font


def programs(progs, out, what):
    for lo in range(0, len(progs), 500):
        part = progs[lo : lo + 500]
        glyphs = [gl(name=f"g{i}", nodes=U.contour(("line", "line")), tth=p) for i, p in enumerate(part)]
        for p in part:
            out.state(repr(p))
        check(U.font(glyphs, before=U.tt_records(ST, ZN)), ST, ZN, (), {f"g{i}": p for i, p in enumerate(part)}, out, what)


def run_params(c, out):
    ps = [p for p in R.TT[c][1] if p not in U.TT_POINTS]
    progs = []
    for pts in product((0, 2, 5, 300), repeat=npts(c)):
        for vals in product(*(PARAMS[p] for p in ps)):
            progs.append([cmd_of(c, pts, **dict(zip(ps, vals)))])
    programs(progs, out, c)


def run_seqs(payload, out):
    k, head = payload
    progs = []
    for last in R.TT:
        cs = (*head, last)
        for step in (0, 1, 2):
            progs.append([cmd_of(c, [j * step + i for i in range(npts(c))]) for j, c in enumerate(cs)])
    programs(progs, out, f"sequences {head}")


def run_stems(payload, out):
    na, nb = payload
    for names in product(NAMES, repeat=na + nb):
        stems = {
            "ttStemsV": [(100 + i, n, tuple(10 * j + i for j in range(6))) for i, n in enumerate(names[:na])],
            "ttStemsH": [(200 + i, n, tuple(10 * j + i for j in range(6))) for i, n in enumerate(names[na:])],
        }
        out.state(repr(names))
        progs = [cmd_of("SingleLinkV", [0, 1], stem=i) for i in range(na)] + [cmd_of("DoubleLinkH", [1, 2], stem=i) for i in range(nb)]
        data = U.font([gl(name="g", tth=progs)], before=U.tt_records(stems, ZN))
        check(data, stems, ZN, (), {"g": progs}, out, f"stems {names[:na]} {names[na:]}")


def run_zones(payload, out):
    nt, nb = payload
    for names in product(NAMES, repeat=nt + nb):
        zones = {
            "ttZonesT": [(500 + i, 5 + i, n) for i, n in enumerate(names[:nt])],
            "ttZonesB": [(-i, -5 - i, n) for i, n in enumerate(names[nt:])],
        }
        out.state(repr(names))
        progs = [cmd_of("AlignTop", [0], zone=i) for i in range(nt)] + [cmd_of("AlignBottom", [1], zone=i) for i in range(nb)]
        deltas = [(i, 9 + i, 8 * i) for i in range(nt + nb)]
        data = U.font([gl(name="g", tth=progs)], before=U.tt_records(ST, zones, deltas))
        check(data, ST, zones, deltas, {"g": progs}, out, f"zones {names[:nt]} {names[nt:]}")


def run_rounds(_, out):
    tabs = list(product((0, 9, 300), repeat=6))
    stems = {
        "ttStemsV": [(1000 + i, f"V{i}", p) for i, p in enumerate(tabs)],
        "ttStemsH": [(2000 + i, f"H{i}", p[::-1]) for i, p in enumerate(tabs)],
    }
    for p in tabs:
        out.state(repr(p))
    check(U.font([gl(name="g")], before=U.tt_records(stems, ZN)), stems, ZN, (), {}, out, "rounding")


def run_deltas(_, out):
    for nt, nb in product(range(3), repeat=2):
        zones = {
            "ttZonesT": [(500 + i * 10, 5 + i, f"t{i}") for i in range(nt)],
            "ttZonesB": [(-i * 10, -5 - i, f"b{i}") for i in range(nb)],
        }
        uni = [(z, p) for z in range(nt + nb) for p in (9, 12, 100)]
        for sel in [(), *((x,) for x in uni), *permutations(uni, 2)]:
            deltas = [(z, p, (8, -8)[k]) for k, (z, p) in enumerate(sel)]
            out.state(repr((nt, nb, sel)))
            check(U.font([gl(name="g")], before=U.tt_records(None, zones, deltas)), {"ttStemsV": [], "ttStemsH": []}, zones, deltas, {}, out, f"{nt}+{nb} zones, deltas {deltas}")


def run_many(n, out):
    """Many stems, zones, deltas per zone, commands and glyphs"""
    for nv, nh, nt, nb, nd, ng in ((n, 0, 0, 1, 1, 1), (0, n, 1, 0, 1, 1), (1, 1, n, 0, 1, 1), (1, 1, 0, n, 1, 1), (1, 1, 1, 1, n, 1), (1, 1, 1, 1, 1, n)):
        stems = {d: [(off + i, f"{d[-1]}{i}", tuple(10 * j + i for j in range(6))) for i in range(k)] for d, k, off in (("ttStemsV", nv, 1000), ("ttStemsH", nh, 3000))}
        zones = {"ttZonesT": [(500 + i, 5 + i, f"t{i}") for i in range(nt)], "ttZonesB": [(-i - 1, -5 - i, f"b{i}") for i in range(nb)]}
        deltas = [(z, 9 + p, (p + z) % 17 - 8) for z in range(nt + nb) for p in range(nd)]
        prog = [cmd_of("SingleLinkV", [0, 1], stem=i) for i in range(nv)] + [cmd_of("DoubleLinkH", [1, 2], stem=i) for i in range(nh)]
        prog += [cmd_of("AlignTop", [0], zone=i) for i in range(nt)] + [cmd_of("AlignBottom", [1], zone=i) for i in range(nb)]
        glyphs = {f"g{i}": prog for i in range(ng)}
        for dl in (deltas, deltas[::-1]):
            out.state(repr((nv, nh, nt, nb, nd, ng, dl[:1])))
            data = U.font([gl(name=x, tth=p) for x, p in glyphs.items()], before=U.tt_records(stems, zones, dl))
            check(data, stems, zones, dl, glyphs, out, f"{nv}+{nh} stems, {nt}+{nb} zones, {nd} deltas each, {ng} glyphs")


NO = {"ttStemsV": [], "ttStemsH": []}
NOZ = {"ttZonesT": [], "ttZonesB": []}


def run_settings(_, out):
    from vfbLib.enum import T

    keys = {int(T.stemsnaplimit): "stemsnaplimit", int(T.zoneppm): "zoneppm", int(T.codeppm): "codeppm"}
    for combo in product((None, 0, 48, 68, 65535), repeat=3):
        out.state(repr(combo))
        st = {i: v for i, v in zip(keys, combo) if v is not None}
        font = check(U.font([gl(name="g")], before=U.tt_records(settings=st)), NO, NOZ, (), {}, out, f"settings {combo}")
        out.eq(font, {keys[i]: v for i, v in st.items()}, "settings", f"settings {combo}")
    G = [(8, 2), (20, 15), (65535, 65535), (0, 0)]
    for k in range(4):
        for sel in permutations(G, k):
            out.state(repr(sel))
            rec = (1265, b"".join(R.u16(a) + R.u16(b) for a, b in sel))
            font = check(U.font([gl(name="g")], before=[rec]), NO, NOZ, (), {}, out, f"gasp {sel}")
            out.eq(font, {"gasp": {str(a): b for a, b in sel}}, "gasp", f"gasp {sel}")
    for ppem, upm in product((0, 9, 65535), (16, 1000, 16384)):
        vals = {**tt_base(), HEADK["head_lowest_rec_ppem"]: ppem, HEADK["head_units_per_em"]: upm}
        view, parts = ttinfo(vals)
        out.state(repr(vals))
        rec = (1264, b"".join(parts) + R.u8(0x32))
        font = check(U.font([gl(name="g")], before=[rec]), NO, NOZ, (), {}, out, f"ttinfo {view}")
        out.eq(font, {k: v for k, v in view.items() if k in ("head_lowest_rec_ppem", "head_units_per_em")}, "ttinfo", f"ttinfo {view}")


def run_glyphs(_, out):
    """Which glyphs are hinted, in all patterns; several masters; hinted
    composites"""
    for m in (1, 2, 4):
        for pat in product((0, 1, 2, 3), repeat=4):
            glyphs, want = [], {}
            for i, p in enumerate(pat):
                tth = [cmd_of("AlignH", [i]), cmd_of("MDeltaV", [j])] [:p] if (j := i + 1) and p < 3 else [cmd_of("InterpolateV", [0, 1, 2])]
                kw = dict(tth=tth) if tth else {}
                if p == 3:
                    kw["components"] = [dict(gid=0, offsetX=[0] * m, offsetY=[0] * m, scaleX=[1.0] * m, scaleY=[1.0] * m)]
                n = ("A", "b.alt", "\u00e9", "uni0041")[i]
                want[n] = tth
                glyphs.append(gl(name=n, num_masters=m, metrics=[(500, 0)] * m, nodes=U.contour(("line", "line"), m) if p < 3 else [], **kw))
            out.state(repr((m, pat)))
            check(U.font(glyphs, m, before=U.tt_records(ST, ZN)), ST, ZN, (), want, out, f"{m} masters, {pat}")


def run_order(_, out):
    """The records of the font level in all orders that FontLab or an edited
    file may have: PPEMs before the 1 px record; all other orders free"""
    deltas = [(0, 9, 8), (3, 12, -8)]
    recs = U.tt_records(ST, ZN, deltas)
    prog = [cmd_of("AlignTop", [0]), cmd_of("SingleLinkH", [0, 1], stem=1)]
    for perm in permutations(range(5)):
        # stem records need the number of stems
        if perm.index(1) > perm.index(0) or perm.index(0) > perm.index(2):
            if not (perm.index(0) < perm.index(1) < perm.index(2)):
                continue
        out.state(repr(perm))
        data = U.font([gl(name="g", tth=prog)], before=[recs[i] for i in perm])
        check(data, ST, ZN, deltas, {"g": prog}, out, f"records in the order {[recs[i][0] for i in perm]}")


def run_cli(_, out):
    import tomllib

    import yaml

    load = {
        "json": json.loads,
        "toml": lambda b: tomllib.loads(b.decode("utf-8")),
        "yaml": lambda b: yaml.safe_load(b.decode("utf-8")),
    }
    st = {1272: 3, 1274: 4, 1275: 5}
    fonts = {
        "full": (ST, ZN, [(0, 12, 8), (0, 9, -8), (4, 100, 1)], st),
        "empty": (NO, NOZ, [], {}),
        "names": ({d: [(100 + i, n, (1, 2, 3, 4, 5, 6)) for i, n in enumerate(("x", "x", "yes", "1", "null", "\u20ac"))] for d in NO}, ZN, [], {}),
    }
    for name, (stems, zones, deltas, settings) in fonts.items():
        progs = {
            "A": [cmd_of(c, range(npts(c))) for c in R.TT],
            "no": [cmd_of("AlignH", [300], align=2)],
            "\u00e9": [cmd_of("SingleLinkV", [1, 2], stem=-2)],
            "none": [],
        }
        if name == "empty":
            progs = {"none": []}
        glyphs = [gl(name=n, **(dict(tth=p) if p else {})) for n, p in progs.items()]
        data = U.font(glyphs, before=U.tt_records(stems, zones, deltas, settings))
        want = U.plain(extract(data)[0])
        for fmt, base, dest in product((None, "json", "toml", "yaml"), ("font", "a.b c"), (None, "sub", "abs")):
            with cli.scratch() as d:
                src = d / f"{base}.vfb"
                src.write_bytes(data)
                (d / "sub").mkdir()
                args = [] if fmt is None else ["-f", fmt]
                if dest:
                    args += ["-p", d / "sub"]
                if dest == "abs":
                    args[-1] = (d / "sub").resolve()
                before = cli.tree(d)
                code, text = cli.run("vfb2tth", *args, src)
                what = f"{name} {fmt} {base} {dest}"
                out.state(what)
                if code:
                    out.fail("cli/error", f"{what}: {code}")
                    continue
                files = cli.tree(d)
                new = {k: v for k, v in files.items() if before.get(k) != v}
                target = ("sub/" if dest else "") + f"{base}.tth.{fmt or 'json'}"
                if list(new) != [target]:
                    out.fail("cli/files", f"{what}: {list(new)}")
                    continue
                out.eq(load[fmt or "json"](new[target]), want, "cli/content", what)
                out.trans()
                out.trace()


KINDS = {
    "params": run_params, "seqs": run_seqs, "stems": run_stems, "zones": run_zones, "rounds": run_rounds,
    "deltas": run_deltas, "many": run_many, "settings": run_settings, "glyphs": run_glyphs, "order": run_order, "cli": run_cli,
}  # fmt: skip
