"""Font info of the UFO masters: every value lands in the right attribute."""
import plistlib
import shutil
import tempfile
from datetime import datetime, timedelta
from itertools import combinations, product
from pathlib import Path

from mc import ref as R
from mc import ufo as U
from mc.codec import PSBASE, TTINFO, gl, head_flags, tt_base, ttinfo

PID = "C27"
RULE = (
    "every font information record with every value of its boundary domain, all pairs of records in both orders, all values of the "
    "style flags, counts of alignment zones and stem snaps in all combinations of two, for 1, 2, 4 masters; a state is the set of "
    "records of a file"
)
BOUNDS = {
    "quick": "44 records, all pairs in both orders, 1024 style flags, 16-bit fields at boundaries, 15 x 6 counts, 3 conversions; every 5th file also saved and its fontinfo.plist read",
    "thorough": "the same, with 65536 style flags, all weights, all sets of 3 records, all files saved",
}
ASSUMPTIONS = [
    "values that UFO does not allow (e.g. negative win ascent, undefined embedding bits) are not claimed, except for weight, width and style",
]
CHUNK = 1
CASE_LIMIT = 400

TEXTS = ["", "x", "Some text", "Caf\u00e9 \u20ac", "a & <b>", "x" * 300]
TEXT = {
    1026: ["postscriptFontName"], 1025: ["postscriptFullName"], 1027: ["styleMapFamilyName"],
    1024: ["familyName", "openTypeNamePreferredFamilyName"], 1037: ["copyright"],
    1038: ["openTypeNameDescription"], 1039: ["openTypeNameManufacturer"], 1061: ["trademark"],
    1062: ["openTypeNameDesigner"], 1063: ["openTypeNameDesignerURL"],
    1064: ["openTypeNameManufacturerURL"], 1069: ["openTypeNameLicense"],
    1070: ["openTypeNameLicenseURL"], 1092: ["macintoshFONDName"], 1127: ["postscriptWeightName"],
    1137: ["styleName", "openTypeNamePreferredSubfamilyName"], 1128: ["openTypeNameVersion"],
    1129: ["openTypeNameUniqueID"], 1140: ["openTypeNameSampleText"], 1121: ["openTypeOS2VendorID"],
    1066: ["postscriptDefaultCharacter"], 2025: ["note"],
}  # fmt: skip
U16F = {1090: "macintoshFONDFamilyID", 1130: "versionMajor", 1131: "versionMinor", 1132: "year",
        1135: "unitsPerEm", 1031: "postscriptUnderlineThickness"}  # fmt: skip
S16F = {1278: "openTypeHheaAscender", 1279: "openTypeHheaDescender"}
POS = [0, 1, 2, 255, 256, 1000, 2048, 32767]
TTF = {
    "os2_us_width_class": "openTypeOS2WidthClass", "head_lowest_rec_ppem": "openTypeHeadLowestRecPPEM",
    "os2_y_subscript_x_size": "openTypeOS2SubscriptXSize", "os2_y_subscript_y_size": "openTypeOS2SubscriptYSize",
    "os2_y_subscript_x_offset": "openTypeOS2SubscriptXOffset", "os2_y_subscript_y_offset": "openTypeOS2SubscriptYOffset",
    "os2_y_superscript_x_size": "openTypeOS2SuperscriptXSize", "os2_y_superscript_y_size": "openTypeOS2SuperscriptYSize",
    "os2_y_superscript_x_offset": "openTypeOS2SuperscriptXOffset", "os2_y_superscript_y_offset": "openTypeOS2SuperscriptYOffset",
    "os2_y_strikeout_size": "openTypeOS2StrikeoutSize", "os2_y_strikeout_position": "openTypeOS2StrikeoutPosition",
    "os2_s_typo_ascender": "openTypeOS2TypoAscender", "os2_s_typo_descender": "openTypeOS2TypoDescender",
    "os2_s_typo_line_gap": "openTypeOS2TypoLineGap", "os2_us_win_ascent": "openTypeOS2WinAscent",
    "os2_us_win_descent": "openTypeOS2WinDescent",
}  # fmt: skip
NONNEG = {"head_lowest_rec_ppem", "os2_us_win_ascent", "os2_us_win_descent"}
MAXP = {"max_zones": "maxZones", "max_twilight_points": "maxTwilightPoints", "max_storage": "maxStorage",
        "max_function_defs": "maxFunctionDefs", "max_instruction_defs": "maxInstructionDefs",
        "max_stack_elements": "maxStackElements"}  # fmt: skip
KEY = {n: k for k, n in TTINFO}
BLUES = ("blue_values", "other_blues", "family_blues", "family_other_blues", "stem_snap_h", "stem_snap_v")
BLUE_ATTR = dict(zip(BLUES, ("postscriptBlueValues", "postscriptOtherBlues", "postscriptFamilyBlues",
                             "postscriptFamilyOtherBlues", "postscriptStemSnapH", "postscriptStemSnapV")))  # fmt: skip
BLUE_MAX = dict(zip(BLUES, (14, 10, 14, 10, 12, 12)))


def bits(v, n=64):
    return [i for i in range(n) if v >> i & 1]


def style_name(v):
    """Possible style map names; contradictory flags allow several"""
    reg, bold, ital = v >> 6 & 1, v >> 5 & 1, v & 1
    if reg and bold:
        return {"regular", "bold", "italic", "bold italic"} if ital else {"regular", "bold"}
    if bold:
        return {"bold italic"} if ital else {"bold"}
    if ital:
        return {"italic", "regular"} if reg else {"italic"}
    return {"regular"}


def timestamp(v):
    t = (v % 2**32) - 2082841200
    return (datetime(1970, 1, 1) + timedelta(seconds=max(t, 0))).strftime("%Y/%m/%d %H:%M:%S")


def pcodes(b):
    return [c - 256 if c > 127 else c for c in b]


# ------------------------------------------------------------------ records


def field(name, i):
    """(records, {attribute: value}) of the i-th value of the field; None if
    there are no more values"""
    if name in TEXT:
        if i < len(TEXTS):
            return [U.s(name, TEXTS[i])], {a: TEXTS[i] for a in TEXT[name]}
    elif name in U16F:
        v = (POS + [65535])[i : i + 1]
        if v:
            return [U.u(name, v[0])], {U16F[name]: v[0]}
    elif name in S16F:
        v = (POS + [-1, -250, -32768])[i : i + 1]
        if v:
            return [(name, R.i16(v[0]))], {S16F[name]: v[0]}
    elif name == 1270:
        if i < len(POS):
            return [U.u(name, POS[i])], {"openTypeHheaLineGap": POS[i]}
    elif name == 1034:
        v = [0, 1, 5][i : i + 1]
        if v:
            return [U.u(name, v[0])], {"postscriptIsFixedPitch": bool(v[0])}
    elif name == 1030:
        v = [0, 1, -1, -100, 32767, -32768][i : i + 1]
        if v:
            return [(name, R.i16(v[0]))], {"postscriptUnderlinePosition": v[0]}
    elif name == 1048:
        v = [400, 1, 0, 250, 999, 1000, 1001, 32767, -1, -32768][i : i + 1]
        if v:
            return [(name, R.i16(v[0]))], {"openTypeOS2WeightClass": min(max(v[0], 1), 1000)}
    elif name == 1029:
        v = [0.0, -12.0, 12.5, 0.1, 90.0][i : i + 1]
        if v:
            return [(name, R.dbl(v[0]))], {"italicAngle": v[0]}
    elif name == 1044:
        v = [0, 1, 5000000, 2**31 - 1, -1][i : i + 1]
        if v:
            return [(name, R.i32(v[0]))], {"postscriptUniqueID": v[0]}
    elif name == 1118:
        v = [(2, 0, 5, 3, 0, 0, 0, 2, 0, 4), tuple(range(10)), (127,) * 10, (0,) * 10][i : i + 1]
        if v:
            return [(name, bytes(v[0]))], {"openTypeOS2Panose": list(v[0])}
    elif name == 2021:
        if i < 130:
            v = [1 << j for j in range(128)] + [2**128 - 1, 0x800000000000000000000001]
            return [(name, v[i].to_bytes(16, "little"))], {"openTypeOS2UnicodeRanges": bits(v[i], 128)}
    elif name == 1265:
        v = [[(8, 2), (16, 1), (0xFFFF, 3)], [(0xFFFF, 15)], [(9, 0), (0xFFFF, 5)]][i : i + 1]
        if v:
            return [(name, b"".join(R.u16(a) + R.u16(b) for a, b in v[0]))], {
                "openTypeGaspRangeRecords": [dict(rangeMaxPPEM=a, rangeGaspBehavior=bits(b)) for a, b in v[0]]
            }
    elif name == 1138:
        v = [
            [(4, 3, 1, 1033, "Abc")], [(1, 3, 1, 0x407, "\u00c4\u0416\U0001f600"), (2, 1, 0, 0, "\u00e4")],
            [(i, 3, 1, 1033, str(i)) for i in range(25)], [(1, 3, 1, 1033, ""), (1, 3, 1, 1033, "x")],
        ][i : i + 1]  # fmt: skip
        if v:
            b = R.num(len(v[0]))
            for *h, t in v[0]:
                u16 = t.encode("utf-16-le")
                codes = t.encode("mac_roman") if h[1] == 1 else [u16[j] | u16[j + 1] << 8 for j in range(0, len(u16), 2)]
                b += R.nums(h) + R.num(len(codes)) + R.nums(codes)
            keys = ("nameID", "platformID", "encodingID", "languageID", "string")
            return [(name, b)], {"openTypeNameRecords": [dict(zip(keys, r)) for r in v[0]]}
    return None


FIELDS = [*TEXT, *U16F, *S16F, 1270, 1034, 1030, 1048, 1029, 1044, 1118, 2021, 1265, 1138]
# fields of the TrueType info record: (values, attribute values)


def tt_values(n):
    if n == "os2_us_width_class":
        return [(v, {TTF[n]: min(max(v, 1), 9)}) for v in (1, 2, 5, 9, 0, 10, -1, 1000)]
    if n in TTF:
        return [(v, {TTF[n]: v}) for v in POS + ([] if n in NONNEG else [-1, -700, -32768])]
    if n == "head_flags":
        return [(v | o << 16, {"openTypeHeadFlags": bits(v)}) for v in [1 << i for i in range(15)] + [0, 0x1F, 0x7FFF] for o in (0, 1, 5)]
    if n == "head_creation":
        ts = [0, 1, -1, 2082841199, 2082841200, 2082841201, 2**31 - 1, -(2**31), -991664896, -434743306, -2000000000, -100000]
        return [(t, {"openTypeHeadCreated": timestamp(t)}) for t in ts]
    if n == "os2_fs_type":
        return [(v, {"openTypeOS2Type": bits(v)}) for v in (0, 2, 4, 8, 0x102, 0x104, 0x108, 0x200, 0x208)]
    if n == "os2_s_family_class":
        return [(a << 8 | b, {"openTypeOS2FamilyClass": [a, b]}) for a in range(15) for b in range(16)]
    if n == "Codepages":
        vals = [(1 << i, 0) for i in range(32)] + [(0, 1 << i) for i in range(32)] + [(0, 0), (3, 0xC0000000), (2**32 - 1, 2**32 - 1)]
        return [(v, {"openTypeOS2CodePageRanges": bits(v[0] | v[1] << 32)}) for v in vals]
    if n == "Average Width":
        return [(v, {"postscriptNominalWidthX": abs(v) if v else None}) for v in (0, 1, 500, -500, 32767)]
    # stored elsewhere, or not in the UFO
    if n in ("head_units_per_em", "head_mac_style", "head_creation2", "head_font_direction_hint", "os2_us_weight_class", "os2_fs_selection"):
        return [(v, {}) for v in (0, 1, 600, -2)]
    return None


def tt_defaults():
    d = tt_base()
    for k in d:
        if isinstance(d[k], int):
            d[k] = 0
    d[KEY["os2_us_width_class"]] = 5
    d[0x54] = (0, 0)
    return d


def tt_rec(**kw):
    d = tt_defaults()
    for k, v in kw.items():
        d[KEY[k.replace("__", " ")]] = v
    _, parts = ttinfo(d)
    return (1264, b"".join(parts) + b"\x32")


def attrs(info):
    """All set attributes"""
    from ufoLib2.objects.info import Info

    d = {}
    for a in Info.__attrs_attrs__:
        n = a.name.lstrip("_")
        v = getattr(info, n)
        if v is None:
            continue
        d[n] = tidy(v)
    return d


def tidy(v):
    if isinstance(v, (list, tuple)):
        return [tidy(x) for x in v]
    if isinstance(v, dict):
        return {k: tidy(x) for k, x in v.items()}
    if hasattr(v, "rangeMaxPPEM"):
        return dict(rangeMaxPPEM=v.rangeMaxPPEM, rangeGaspBehavior=[int(x) for x in v.rangeGaspBehavior])
    if hasattr(v, "nameID"):
        return {k: getattr(v, k) for k in ("nameID", "platformID", "encodingID", "languageID", "string")}
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, int):
        return int(v)
    return v


BASE = {}


def baseline(m=1, **opts):
    """Attributes of a font without any information records"""
    k = (m, repr(opts))
    if k not in BASE:
        ufos, _ = U.convert(U.font([], m), **opts)
        BASE[k] = [attrs(x.info) for x in ufos]
    return BASE[k]


def check(out, recs, want, what, fp, m=1, save=False, base=None, lib=None, accept=None, **opts):
    """Convert a font with the records; its info must be that of a font
    without them plus the wanted values"""
    out.state(repr(recs))
    ufos, _ = U.convert(U.font([], m, before=recs), **opts)
    base = base or baseline(m, **opts)
    for i, ufo in enumerate(ufos):
        w = dict(base[i], **want)
        if not save or i:
            w = {k: v for k, v in w.items() if v is not None}
        w = {k: v for k, v in w.items() if v is not None}
        # the UFO has the top of the underline
        if "postscriptUnderlinePosition" in want or "postscriptUnderlineThickness" in want:
            p = w.get("postscriptUnderlinePosition", 0) if "postscriptUnderlinePosition" in want else 0
            t = want.get("postscriptUnderlineThickness", 0)
            got = ufo.info.postscriptUnderlinePosition
            w["postscriptUnderlinePosition"] = got
            if abs(got - (p + t / 2)) > 0.5:
                out.fail("underline", f"{what}: position {p}, thickness {t}: implementation {got}")
        if accept:
            for k, s in accept.items():
                if getattr(ufo.info, k) in s:
                    w[k] = getattr(ufo.info, k)
        got = attrs(ufo.info)
        out.eq(got, w, fp, f"{what}, master {i}")
        if lib is not None:
            out.eq(U.plain(dict(ufo.lib)), lib, fp + "/lib", f"{what}, master {i}")
        if save:
            folder = Path(tempfile.mkdtemp(prefix="mc27"))
            try:
                ufo.save(folder / "f.ufo")
                d = plistlib.loads((folder / "f.ufo" / "fontinfo.plist").read_bytes())
            finally:
                shutil.rmtree(folder)
            out.eq(d, got, fp + "/saved", f"{what}, fontinfo.plist of master {i}")
        out.trans()
    out.trace()


def value_count(f):
    n = 0
    while field(f, n) is not None:
        n += 1
    return n


def cases(tier):
    for f in FIELDS:
        yield "single", [f, 5 if tier == "quick" else 1]
    for k, n in TTINFO:
        if tt_values(n):
            yield "tt", [n, 5 if tier == "quick" else 1]
    yield "maxp", None
    for f in FIELDS:
        yield "pairs", [f, tier]
    top = 1024 if tier == "quick" else 65536
    for lo in range(0, top, 128):
        yield "style", [lo, lo + 128]
    yield "weight", [65536 if tier == "thorough" else 3000]
    for key in BLUES:
        yield "counts", [key, tier]
    yield "masters", tier
    yield "lib", None


def run_single(payload, out):
    f, step = payload
    for i in range(value_count(f)):
        recs, want = field(f, i)
        for m in (1, 2):
            check(out, recs, want, f"record {f} = {want}", f"field/{f}", m, save=i % step == 0 and m == 1)
        mini = {} if f == 2025 else want
        check(out, recs, mini, f"record {f} = {want}, minimal", f"field/{f}/minimal", minimal=True)


def run_tt(payload, out):
    n, step = payload
    # the record itself sets values
    d = tt_rec()
    ufos, _ = U.convert(U.font([], 1, before=[d]))
    base = [attrs(ufos[0].info)]
    defaults = {}
    for _, name in TTINFO:
        for v, w in tt_values(name) or []:
            if v == tt_defaults()[KEY[name]]:
                defaults.update({a: x for a, x in w.items() if x is not None})
    out.eq({k: base[0].get(k) for k in defaults}, defaults, "tt/defaults", "TrueType info of zeroes")
    for i, (v, want) in enumerate(tt_values(n)):
        check(out, [tt_rec(**{n.replace(" ", "__"): v})], want, f"TrueType info {n} = {v}", f"tt/{n}", base=base, save=i % step == 0)


def run_maxp(_, out):
    vals = [0, 1, 2, 65535]
    for sub in [()] + [c for r in (1, 2) for c in combinations(MAXP, r)]:
        for vs in product(vals[1:], repeat=len(sub)):
            d = dict(zip(sub, vs))
            (ufo,), _ = U.convert(U.font([], before=[tt_rec(**d)]))
            want = None
            if d:
                want = {"formatVersion": "1", **{a: d.get(k, 0) for k, a in MAXP.items()}}
            out.state(repr(d))
            out.eq(U.plain(ufo.lib.get("public.truetype.instructions")), want, "maxp", f"maxp values {d}")
            out.trans()
        out.trace()


def run_pairs(payload, out):
    f, tier = payload
    fields = [x for x in FIELDS if x != f]
    for r in (1,) if tier == "quick" else (1, 2):
        for others in combinations(fields, r):
            if r == 2 and (others[0] < f or others[1] < f):
                continue
            ra, wa = field(f, 1)
            recs, want = [], {}
            for o in others:
                rb, wb = field(o, 2)
                recs += rb
                want.update(wb)
            want.update(wa)
            check(out, ra + recs, want, f"records {f}, {others}", "pairs")


def run_style(payload, out):
    lo, hi = payload
    for v in range(lo, hi):
        want = {"openTypeOS2Selection": [b for b in bits(v) if b not in (0, 5, 6)]}
        save = not v & ~0x61 or v % 97 == 0 and not v & 0xFC00
        check(out, [U.u(1267, v)], want, f"style flags {v:#x}", "style", accept={"styleMapStyleName": style_name(v)}, save=save)
        # the styles that UFO knows
        (ufo,), _ = U.convert(U.font([], before=[U.u(1267, v)]))
        if ufo.info.styleMapStyleName not in style_name(v):
            out.fail("style/name", f"style flags {v:#x}: {ufo.info.styleMapStyleName!r}")


def run_weight(payload, out):
    (n,) = payload
    vals = range(0, n) if n == 65536 else [*range(0, 1100, 7), *range(-3, 4), 999, 1000, 1001, 32767, -32768]
    for v in vals:
        w = v - 65536 if v > 32767 else v
        check(out, [(1048, R.i16(w))], {"openTypeOS2WeightClass": min(max(w, 1), 1000)}, f"weight {w}", "weight")


def run_counts(payload, out):
    """Alignment zones and stem snaps are cut to the stored number"""
    key, tier = payload
    for n in range(BLUE_MAX[key] + 1):
        for other in BLUES:
            for n2 in (0, 1, BLUE_MAX[other]):
                if other == key:
                    continue
                more = (4, 8, 16) if other == [b for b in BLUES if b != key][0] else (4,) if tier != "quick" else ()
                for m in (1, 2, *more):
                    ps = []
                    for i in range(m):
                        ps.append({k: [100 * i + (j ^ i % 2) * (b + 1) - (0 if "snap" in k else 200) for j in range(BLUE_MAX[k])] for b, k in enumerate(BLUES)})
                    recs = [U.u(U.BLUE_NUM[key], n), U.u(U.BLUE_NUM[other], n2)]
                    data = U.font([], m, before=recs, ps=ps)
                    for pshints in (True, False):
                        ufos, _ = U.convert(data, pshints=pshints)
                        for i, ufo in enumerate(ufos):
                            for k in BLUES:
                                cnt = (n if k == key else n2 if k == other else 0) if pshints else 0
                                got = getattr(ufo.info, BLUE_ATTR[k])
                                if list(got or []) != ps[i][k][:cnt]:
                                    out.fail("counts", f"{key}: {n} values, {other}: {n2} values, {m} masters, pshints={pshints}, master {i}: {k}: implementation {got}, reference {ps[i][k][:cnt]}")
                                out.trans()
                    out.state(repr((key, n, other, n2, m)))
        out.trace()


PSF = {"ascender": ("ascender", 1), "descender": ("descender", 1), "x_height": ("xHeight", 1), "cap_height": ("capHeight", 1),
       "blue_scale": ("postscriptBlueScale", 0), "blue_shift": ("postscriptBlueShift", 0), "blue_fuzz": ("postscriptBlueFuzz", 0),
       "force_bold": ("postscriptForceBold", 0)}  # fmt: skip


def run_masters(tier, out):
    """Values that each master has"""
    for k, (attr, always) in PSF.items():
        dom = [0, 1, 2**31 - 1, 255] if k not in ("blue_scale",) else [0.0, 0.039625, 0.5, 1.0]
        if k == "force_bold":
            dom = [0, 1]
        elif k != "blue_scale":
            dom += [-1, -250] if k not in ("blue_shift", "blue_fuzz") else []
        for m in (1, 2, 4, 16):
            every = product(dom[:4] if m == 4 else dom, repeat=m) if m < 16 else ([dom[(i * a + b) % len(dom)] for i in range(m)] for a in range(4) for b in range(len(dom)))
            for vals in every:
                ps = [{k: v} for v in vals]
                data = U.font([], m, ps=ps)
                for pshints in (True, False):
                    ufos, _ = U.convert(data, pshints=pshints)
                    for i, ufo in enumerate(ufos):
                        w = dict(PSBASE, **ps[i])
                        for k2, (a2, al2) in PSF.items():
                            want = w[k2] if pshints or al2 else None
                            if k2 == "force_bold":
                                want = bool(want)
                            got = getattr(ufo.info, a2)
                            if got != want or type(got) is not type(want):
                                out.fail(f"masters/{k2}", f"{k} = {vals}, pshints={pshints}, master {i}: {a2}: implementation {got}, reference {want}")
                        out.trans()
                out.state(repr((k, vals)))
            out.trace()


def run_lib(_, out):
    """Data without an info attribute"""
    rows = [
        ("user data", U.s(2016, "some\ndata"), "com.fontlab.v5.userData", "some\ndata"),
        ("metrics flags", (2024, R.num(2) + R.pstr(".a") + R.nums((1, 2, 3)) + R.pstr(".b") + R.nums((-1, 0, 200))),
         "com.fontlab.v5.metricsClassFlags", {".a": [1, 2, 3], ".b": [-1, 0, 200]}),
    ]  # fmt: skip
    for m in (1, 2, 4, 16):
        for r in range(len(rows) + 1):
            for sub in combinations(rows, r):
                for seq in (sub, sub[::-1]):
                    lib = {k: v for _, _, k, v in sub}
                    lib["public.glyphOrder"] = []
                    check(out, [x[1] for x in seq], {}, f"lib {[x[0] for x in seq]}", "lib", m, lib=lib)


KINDS = {"single": run_single, "tt": run_tt, "maxp": run_maxp, "pairs": run_pairs, "style": run_style, "weight": run_weight,
         "counts": run_counts, "masters": run_masters, "lib": run_lib}  # fmt: skip
