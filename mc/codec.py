"""Record codec checks: for every item of a family (a record ID, a decompiled
structure, its canonical bytes by the reference encoder, and the surrounding
file's parameters) walk the diagram

      bytes --read--> raw --decompile--> structure --write--> bytes
                                structure --assign to a new record, compile--> bytes
      other encodings of the same structure --decompile--> structure

on the real code, and compare each state with the reference."""

from __future__ import annotations

from copy import deepcopy
from functools import lru_cache
from io import BytesIO
from itertools import combinations, product

from mc import ref as R
from mc.core import first_diff, norm, short

V = [0, 1, -1, 107, -107, 108, -108, 363, 364, -363, -364, 1131, -1131, 1132, -1132]
VL = V + [32767, -32768, 65535, 65536, 2**31 - 1, -(2**31)]
U16 = [0, 1, 127, 128, 255, 256, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF]
I16 = [0, 1, -1, 127, 128, -128, -129, 255, 256, 0x7FFF, -0x8000]
U8 = [0, 1, 127, 128, 255]
I8 = [0, 1, -1, 127, -128]
U32 = [0, 1, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1]
I32 = [0, 1, -1, 255, 256, 65536, 2**31 - 1, -(2**31)]
DBL = [0.0, 1.0, -1.0, 0.5, 0.1, -12.5, 1e-300, 1e300, 1 / 3, 123456789.125]

STEMS = {
    "ttStemsV": [{"value": 80, "name": "V 80", "round": {6: 300}}],
    "ttStemsH": [
        {"value": 70, "name": "H 70", "round": {6: 300}},
        {"value": 60, "name": "H 60", "round": {6: 300}},
    ],
}


def stem_table(nv, nh):
    return {
        d: [{"value": 80 + i, "name": f"{d} {i}", "round": {6: 300}} for i in range(n)]
        for d, n in (("ttStemsV", nv), ("ttStemsH", nh))
    }


class Item:
    __slots__ = ("eid", "view", "data", "masters", "platform", "stems", "alts", "tag")

    def __init__(
        self, eid, view, data, masters=1, platform="macos", stems=None, alts=(), tag=""
    ):
        self.eid, self.view, self.data = int(eid), view, data
        self.masters, self.platform, self.stems = masters, platform, stems
        self.alts, self.tag = alts, tag

    def ctx(self):
        return (self.masters, self.platform, *((len(self.stems[d]) for d in ("ttStemsV", "ttStemsH")) if self.stems is not None else (-1, -1)))


def sweep(base, doms, pair=3):
    """Every single-field deviation from the base, then every pair of fields
    over the first `pair` domain values."""
    yield deepcopy(base)
    for k, dom in doms.items():
        for v in dom:
            d = deepcopy(base)
            d[k] = v
            yield d
    for k1, k2 in combinations(doms, 2):
        for v1, v2 in product(doms[k1][:pair], doms[k2][:pair]):
            d = deepcopy(base)
            d[k1] = v1
            d[k2] = v2
            yield d


FAMILIES = {}


def family(*pids):
    def deco(fn):
        for p in pids:
            FAMILIES.setdefault(p, {})[fn.__name__] = fn
        return fn

    return deco


@lru_cache(maxsize=64)
def items(pid, name, tier):
    """Materialised, sorted by context so that items sharing a file are
    neighbours."""
    lst = list(FAMILIES[pid][name](tier))
    lst.sort(key=Item.ctx)
    return lst


def cases(pid, tier, batch=64):
    for name in FAMILIES.get(pid, {}):
        n = len(items(pid, name, tier))
        for lo in range(0, n, batch):
            yield "record", [pid, name, tier, lo, min(n, lo + batch)]


def run(payload, out):
    pid, name, tier, lo, hi = payload
    its = items(pid, name, tier)[lo:hi]
    groups = {}
    for k, it in enumerate(its):
        groups.setdefault(it.ctx(), []).append((lo + k, it))
    for group in groups.values():
        run_group(pid, name, tier, group, out)


def _raised(e):
    return f"{type(e).__name__}: {str(e)[:200]}"


def run_group(pid, name, tier, group, out):
    from vfbLib.vfb.entry import VfbEntry
    from vfbLib.vfb.vfb import Vfb

    first = group[0][1]
    src = R.vfb_file(
        [(it.eid, it.data) for _, it in group],
        masters=first.masters,
        platform=first.platform,
        stems=first.stems,
    )

    def fail(idx, it, what, detail):
        out.fail(
            f"{name}/{it.eid}/{it.tag}/{what}",
            f"record {it.eid}, {first.masters} master(s), {first.platform}, bytes "
            f"{short(it.data.hex(), 300)}, structure {short(it.view, 300)}: {detail}",
            ("record", [pid, name, tier, idx, idx + 1]),
        )

    vfb = Vfb(timing=False)
    try:
        vfb.read_bytes(BytesIO(src))
    except Exception as e:
        idx, it = group[0]
        if len(group) > 1:
            for g in group:
                run_group(pid, name, tier, [g], out)
        else:
            fail(idx, it, "read", _raised(e))
        return
    off = 3 if first.stems is not None else 2
    targets = vfb.entries[off:-1]
    ids = [e.id for e in targets]
    if ids != [it.eid for _, it in group]:
        fail(*group[0], "framing", f"records found: {ids[:10]}")
        return
    ok = True
    for (idx, it), e in zip(group, targets):
        out.state(b"%d/%d/" % (it.eid, it.masters) + it.data)
        if it.eid not in (R.MASTERCOUNT, R.FLVERSION, R.STEM_ID) and e.data != it.data:
            fail(idx, it, "raw", f"raw data {short(e.data)}")
            ok = False
            continue
        try:
            e.decompile()
            out.trans()
        except Exception as ex:
            fail(idx, it, "decompile-raised", _raised(ex))
            ok = False
            continue
        if norm(e.data) != norm(it.view):
            p, a, b = first_diff(e.data, it.view)
            fail(
                idx,
                it,
                "decompile",
                f"at {p}: decompiled to {short(a)}, expected {short(b)}",
            )
            ok = False
        # A second decompilation must change nothing
        e.decompile()
        if norm(e.data) != norm(it.view):
            ok = False
    if ok:
        buf = BytesIO()
        try:
            vfb.write_bytes(buf)
            out.trans(len(group))
        except Exception as ex:
            if len(group) > 1:
                for g in group:
                    run_group(pid, name, tier, [g], out)
            else:
                fail(*group[0], "compile-raised", _raised(ex))
            return
        if buf.getvalue() != src:
            found = False
            for (idx, it), e in zip(group, targets):
                if e.data != it.data:
                    found = True
                    fail(
                        idx, it, "compile", f"compiled to {short(bytes(e.data).hex())}"
                    )
            if not found:
                fail(*group[0], "file", "the written file differs from the read file")
    # build new records from the structures
    for idx, it in group:
        # alternative encodings
        for alt in it.alts:
            e = VfbEntry(vfb, eid=it.eid)
            e.data = alt
            try:
                e.decompile()
                out.trans()
                if norm(e.data) != norm(it.view):
                    p, a, b = first_diff(e.data, it.view)
                    fail(
                        idx,
                        it,
                        "alternative",
                        f"{short(alt.hex())} at {p}: {short(a)}, expected {short(b)}",
                    )
                    continue
                e.compile()
                if e.data != it.data:
                    fail(idx, it, "alternative-compile", short(bytes(e.data).hex()))
            except Exception as ex:
                fail(idx, it, "alternative-raised", f"{short(alt.hex())}: {_raised(ex)}")
        e = VfbEntry(vfb, eid=it.eid)
        keep = deepcopy(it.view)
        e.data = deepcopy(it.view)
        try:
            e.compile()
            out.trans()
        except Exception as ex:
            fail(idx, it, "build-raised", _raised(ex))
            continue
        if e.data != it.data:
            fail(idx, it, "build", f"compiled to {short(e.data)}")
        e.decompile()
        if norm(e.data) != norm(keep):
            fail(idx, it, "rebuild", f"decompiled again to {short(e.data)}")
        out.trace()


# ------------------------------------------------------------------ C06


U16_IDS = [
    1502, 1034, 1031, 1054, 1134, 1132, 1130, 1131, 1135, 1090, 1530, 1531, 1532,
    1533, 1534, 1535, 1267, 1057, 1058, 1060, 1270, 1272, 1274, 1275, 1604, 2022,
    1513, 2012, 1503,
]  # fmt: skip
I16_IDS = [1048, 1030, 1278, 1279, 2032]
DBL_IDS = [1029, 1047]
DBLLIST_IDS = [1517, 1247]
HEX_IDS = [1, 4, 262, 1261, 1262, 1263, 2030, 513, 271, 527, 272, 528, 5]
STR_IDS = [
    1026, 1046, 1038, 1025, 1027, 1024, 1056, 1092, 1028, 1065, 1069, 1070, 1037,
    1061, 1062, 1063, 1064, 1039, 1128, 1129, 1127, 1137, 1139, 1140, 1059, 2025,
    2016, 1277, 1514, 1504, 1066, 2034, 2015, 2017, 518, 257,
]  # fmt: skip
UNKNOWN_IDS = [3, 7, 999, 2999, 0x7FFE]


@family("C06")
def numbers(tier):
    dense = tier == "thorough"
    for eid in U16_IDS:
        for v in U16 if eid != 1503 else U16[1:]:
            yield Item(eid, v, R.u16(v), masters=1, tag="u16")
    for v in range(0, 65536, 1 if dense else 97):
        yield Item(1135, v, R.u16(v), tag="u16")
    for eid in I16_IDS:
        for v in I16:
            yield Item(eid, v, R.i16(v), tag="i16")
    for v in range(-32768, 32768, 1 if dense else 97):
        yield Item(1030, v, R.i16(v), tag="i16")
    for v in I32 + [0x12345678, -0x12345678]:
        yield Item(1044, v, R.i32(v), tag="i32")
    for eid in DBL_IDS:
        for v in DBL:
            yield Item(eid, v, R.dbl(v), tag="double")
    for eid in DBLLIST_IDS:
        for n in [*range(0, 17), 40, 41, 100, 101, 300]:
            vals = [DBL[(i + n) % len(DBL)] for i in range(n)]
            yield Item(eid, vals, R.dbl(*vals), tag="doubles")
    for eid in HEX_IDS:
        for b in (b"", b"\x00", b"\xff", bytes(range(256)), b"\x00" * 5):
            yield Item(eid, b.hex(), b, tag="hex")
    for n in (65535, 65536, 70000):
        b = bytes(i * 7 & 255 for i in range(n))
        yield Item(1262, b.hex(), b, tag="hexlong")
    for eid in UNKNOWN_IDS:
        for b in (b"", b"\x00", b"\x01\x02\xff"):
            yield Item(eid, b.hex(), b, tag="unknown")


@family("C06")
def lists(tier):
    for n in range(0, 4):
        for vals in product(U32[:: 1 if n < 3 else 3], repeat=n):
            yield Item(1133, list(vals), b"".join(map(R.u32, vals)), tag="xuid")
    base = [2, 11, 6, 4, 2, 2, 2, 2, 2, 4]
    for i in range(10):
        for v in range(-128, 128):
            p = list(base)
            p[i] = v
            yield Item(1118, p, bytes(x & 255 for x in p), tag="panose")
    # 128 Unicode range bits: each, each pair with its neighbours, all
    sets = [[i] for i in range(128)] + [[]] + [list(range(128))]
    step = 1 if tier == "thorough" else 9
    sets += [list(s) for s in list(combinations(range(128), 2))[::step]]
    for s in sets:
        n = sum(1 << b for b in s)
        yield Item(2021, s, n.to_bytes(16, "little"), tag="ranges")
    for n in range(0, 4):
        for vals in product(VL if n < 3 else V[::3], repeat=n):
            alt = R.num_long(n) + b"".join(map(R.num_long, vals))
            yield Item(1068, list(vals), R.num(n) + R.nums(vals), alts=(alt,), tag="coll")
    for n in (127, 128, 1131, 1132):
        vals = [i % 300 - 150 for i in range(n)]
        yield Item(1068, vals, R.num(n) + R.nums(vals), tag="coll")


FONT_OPTIONS = {
    1: "fit_ascender", 2: "fit_descender", 3: "auto_metrics_left",
    4: "auto_metrics_right", 5: "auto_metrics_close", 6: "auto_hinting_min_h_len",
    7: "auto_hinting_min_v_len", 8: "auto_hinting_min_h_width",
    9: "auto_hinting_min_v_width", 10: "auto_hinting_max_h_width",
    11: "auto_hinting_max_v_width", 12: "auto_hinting_h_ratio",
    13: "auto_hinting_v_ratio", 14: "duplicate_place_x", 15: "paste_place_x",
    16: "opentype_name_records", 17: "codepage_for_cmap_1_0",
    18: "dont_ignore_unicode_indexes", 19: "head_bbox_savings",
    20: "autohinting_options", 21: "export_hinted_truetype_font",
    22: "autohint_unhinted_glyphs", 23: "keep_existing_truetype_instructions",
    24: "export_visual_truetype_hints", 25: "apply_bbox_savings",
    26: "auto_win_asc_desc", 27: "add_characters", 28: "export_embedded_bitmaps",
    29: "copy_hdmx_data_from_base_to_composite_glyph",
    30: "dont_automatically_reorder_glyphs", 31: "export_ot", 32: "export_volt",
    33: "write_kern_feature", 34: "t1_terminal", 35: "t1_pfm", 36: "t1_afm",
    37: "t1_autohint", 38: "t1_unicode", 39: "optimize_align", 40: "optimize_reduce",
    41: "t1_encoding", 42: "ot_write_gdef", 43: "t1_use_os2", 44: "subrize",
    45: "t1_sort", 46: "export_kern_table", 47: "t1_fs_type", 48: "expand_kern_flags",
    49: "expand_kern_codepage", 50: "expand_kern_count", 51: "decompose",
    114: "duplicate_place_y", 115: "paste_place_y",
}  # fmt: skip

AUTOHINT = [
    ("generate_triple_hints", 0x100),
    ("generate_delta_instructions", 0x200),
    ("direct_links_to_center_of_the_glyph_where_possible", 0x400),
    ("interpolate_positions_of_cusp_points", 0x800),
    ("interpolate_positions_of_double_links", 0x1000),
    ("add_link_to_rsb", 0x2000),
]
EXPAND = [
    ("limit_action", 1),
    ("limit_codepage", 2),
    ("limit_cmap_10", 4),
    ("limit_font_window", 8),
    ("limit_count", 16),
    ("limit_keep", 32),
    ("apply_to_assistance", 0x1000),
]


def font_option(k, v):
    name = FONT_OPTIONS.get(k, str(k))
    if k in (12, 13):
        return name, v / 10000
    if k == 20:
        d = {"single_link_attachment_precision": v & 7}
        d.update((n, int(bool(v & m))) for n, m in AUTOHINT)
        return name, d
    if k == 48:
        return name, {n: int(bool(v & m)) for n, m in EXPAND}
    return name, v


def font_options(pairs):
    return (
        dict(font_option(k, v) for k, v in pairs),
        b"".join(R.u8(k) + R.num(v) for k, v in pairs) + b"\x64",
    )


@family("C06")
def options(tier):
    for k in FONT_OPTIONS:
        vals = VL
        if k == 20:
            vals = [p | sum(m for (n, m), b in zip(AUTOHINT, bits) if b)
                    for p in range(8) for bits in product((0, 1), repeat=6)]  # fmt: skip
        elif k == 48:
            vals = [
                sum(m for (n, m), b in zip(EXPAND, bits) if b)
                for bits in product((0, 1), repeat=7)
            ]
        elif k in (12, 13):
            vals = VL + list(range(-50, 20050, 1 if tier == "thorough" else 37))
        for v in vals:
            view, data = font_options([(k, v)])
            alt = R.u8(k) + R.num_long(v) + b"\x64"
            yield Item(1743, view, data, alts=(alt,), tag=str(k))
    ks = list(FONT_OPTIONS)
    for a, b in list(combinations(ks, 2)) + [(b, a) for a, b in zip(ks, ks[1:])]:
        view, data = font_options([(a, 1), (b, 0x1001 if b == 48 else 0x1005 if b == 20 else 200)])
        yield Item(1743, view, data, tag="pair")
    view, data = font_options([(k, (k * 13) % 300) for k in ks if k not in (20, 48)])
    yield Item(1743, view, data, tag="all")
    yield Item(1743, {}, b"\x64", tag="none")
    for k in (52, 60, 99, 101, 113, 116, 255):
        view, data = font_options([(k, 5), (1, 7)])
        yield Item(1743, view, data, tag="unnamed")
    names = {
        0: "use_custom_opentype_export_options",
        1: "use_default_opentype_export_options",
        2: "use_custom_cmap_encoding",
    }
    bitsets = list(range(0, 64)) + [1 << i for i in range(16)] + [0xFFFF, 0x8007, 0x7FF8]
    if tier == "thorough":
        bitsets = range(65536)
    for v in bitsets:
        view = [names.get(i, i) for i in range(16) if v >> i & 1]
        yield Item(1744, view, R.u16(v), tag="export")
    modes = {0: "names_or_index", 1: "unicode_ranges", 3: "codepages"}
    for mode in [0, 1, 2, 3, 4, -1]:
        for m2, m3, mid in [(0, 0, v) for v in VL] + [(v, 1, 2) for v in VL] + [
            (1, v, 2) for v in VL
        ]:
            view = dict(
                mapping_mode=modes.get(mode, str(mode)), m2=m2, m3=m3, mapping_id=mid
            )
            parts = [R.u8(k) + R.num(v) for k, v in zip((1, 2, 3, 4), (mode, m2, m3, mid))]
            alts = ()
            if m2 == 1:
                from itertools import permutations

                alts = tuple(b"".join(p) + b"\x00" for p in permutations(parts))
            yield Item(1742, view, b"".join(parts) + b"\x00", alts=alts, tag="mapping")
    for platform in ("windows", "macos"):
        for ver in [(5, 2, 2, 128), (0, 0, 0, 0), (255, 255, 255, 255), (1, 2, 3, 4),
                    (127, 255, 0, 1), (128, 0, 0, 0), (5, 0, 4, 2741 & 255)]:  # fmt: skip
            for owner in VL:
                yield Item(
                    10,
                    dict(platform=platform, version=ver, owner=owner),
                    R.flversion(platform, ver, owner),
                    platform=platform,
                    tag="version",
                )


@family("C06")
def tables(tier):
    # PCLT
    base = dict(
        font_number=0, pitch=0, x_height=500, style=0, type_family=0, cap_height=700,
        symbol_set=0, typeface="Typeface" + "\0" * 8,
        character_complement=[255, 255, 255, 255, 0, 0, 0, 62], file_name="123456",
        stroke_weight=0, width_type=0, serif_style=64,
    )  # fmt: skip
    doms = {k: VL for k in ("pitch", "x_height", "style", "type_family", "cap_height", "symbol_set")}  # fmt: skip
    doms["font_number"] = [0, 1, 108, 1132, 2**31, 2**32 - 1]
    doms["typeface"] = ["x" * 16, "\0" * 16, R.text(bytes(range(240, 256)))]
    doms["character_complement"] = [
        [v if j == i else 9 for j in range(8)] for i in range(8) for v in U8
    ]
    doms["file_name"] = ["ABCDEF", "\0" * 6, "A\0\0\0\0\0"]
    doms["stroke_weight"] = I8
    doms["width_type"] = I8
    doms["serif_style"] = U8
    for d in sweep(base, doms):
        b = R.num(d["font_number"])
        for k in ("pitch", "x_height", "style", "type_family", "cap_height", "symbol_set"):  # fmt: skip
            b += R.num(d[k])
        b += R.untext(d["typeface"]) + bytes(d["character_complement"])
        b += R.untext(d["file_name"]) + R.i8(d["stroke_weight"]) + R.i8(d["width_type"])
        yield Item(1136, d, b + R.u8(d["serif_style"]), tag="pclt")
    # custom cmaps
    keys = ("language_id", "platform_id", "encoding_id", "format", "option")
    one = {k: i for i, k in enumerate(keys)}
    one["page_name"] = "MacRoman"
    doms = {k: VL for k in keys}
    doms["page_name"] = ["", "a", "b" * 107, "c" * 108, "d" * 1132, R.text(b"\x80\x81\xff")]

    def cm(d):
        return R.nums(d[k] for k in keys) + R.pstr(d["page_name"])

    singles = list(sweep(one, doms))
    for d in singles:
        yield Item(1141, [d], R.num(1) + cm(d), tag="cmap")
    for n in (0, 2, 3, 107, 108):
        lst = [singles[(i * 7) % len(singles)] for i in range(n)]
        yield Item(1141, lst, R.num(n) + b"".join(map(cm, lst)), tag="cmaps")
    # binary tables
    for tag in ("cvt ", "TEST", "\x80\xff  ", "a\0\0\0"):
        for data in (b"", b"\0", bytes(range(256)), b"\xff" * 70000):
            tagb = R.untext(tag if tag[0] != "\x80" else R.text(b"\x80\xff  "))
            yield Item(
                2014, dict(tag=R.text(tagb), data=data.hex()), tagb + data, tag="table"
            )


# ------------------------------------------------------------------ C07


def strip_nul(b):
    return b.strip(b"\0")


@family("C07")
def name_records(tier):
    recs = []
    for v in VL:
        for k in range(4):
            r = [1, 3, 1, 1033]
            r[k] = v
            recs.append((*r, "Abc"))
    for s in ("", "A", "x" * 107, "y" * 108, "\u00e4\u20ac\u0416\u4e00\ufffd\uffff", "\U0001f600", "\U00010000a\U0010ffff",
              "\ud83d", "\ude00\ud83d", "\x00\x1f\x7f\x80\xff"):  # fmt: skip
        recs.append((1, 3, 1, 1033, s))
        recs.append((0, 3, 10, 0, s))
    mac = bytes(range(256)).decode("mac_roman")
    for i in range(0, 256, 8):
        recs.append((4, 1, 0, 0, mac[i : i + 8]))
    for i in range(256):
        recs.append((4, 1, 0, 0, mac[i]))
    # Only Macintosh Roman is stored in its own encoding
    for plat in range(5):
        for enc in [*range(34), 150]:
            for lang in (0, 1033):
                recs.append((4, plat, enc, lang, "A\u00c4\u00d1\u00ff" if (plat, enc) == (1, 0) else "A\u00c4\u00d0\u00ff\u0152"))

    def utf16(s):
        b = s.encode("utf-16-le", "surrogatepass")
        return [b[i] | b[i + 1] << 8 for i in range(0, len(b), 2)]

    def nr(r, units=utf16):
        *h, s = r
        codes = s.encode("mac_roman") if h[1:3] == [1, 0] else units(s)
        return R.nums(h) + R.num(len(codes)) + R.nums(codes)

    for r in recs:
        single = R.num(1) + nr(r, lambda s: [ord(c) for c in s])
        canon = R.num(1) + nr(r)
        yield Item(1138, [r], canon, alts=(single,) if single != canon else (), tag="name")
    for n in (0, 2, 3, 50, 120):
        lst = [recs[(i * 11) % len(recs)] for i in range(n)]
        yield Item(1138, lst, R.num(n) + b"".join(map(nr, lst)), tag="names")


@family("C07")
def strings(tier):
    # every byte value, alone and in every position of a short string
    for eid in STR_IDS:
        for b in (b"", b"A", b"Abc def", bytes(range(1, 256)), b"\xc3\xa4\xc3\x81",
                  b"two\r\nlines\n\n", b"a\0b", b" sp "):  # fmt: skip
            yield Item(eid, R.text(b), b, tag="str")
        for alt in (b"Abc\0", b"\0Abc", b"Abc\0\0\0"):
            yield Item(eid, "Abc", b"Abc", alts=(alt,), tag="nul")
    for x in range(1, 256):
        for b in (bytes([x]), b"a" + bytes([x]), bytes([x]) + b"a", b"a%cb" % x):
            yield Item(1037, R.text(b), b, tag="byte")
            if b"\0" not in b:
                yield Item(2017, R.text(b), b, tag="byte")
    pairs = range(1, 256)
    step = 1 if tier == "thorough" else 5
    for x in pairs:
        for y in range(1 + x % step, 256, step):
            b = bytes([x, y])
            yield Item(1062, R.text(b), b, tag="bytes2")
    for n in (255, 256, 65535, 65536, 100_000):
        b = bytes(32 + i * 31 % 220 for i in range(n))
        yield Item(1069, R.text(b), b, tag="long")
    # padded vendor ID
    for n in range(0, 5):
        for fill in (b"A", b"\xe4", b"\x81", b" "):
            b = fill * n
            yield Item(1121, R.text(b), b.ljust(4, b"\0"), alts=(b,), tag="vendor")
    yield Item(1121, "LucasF", b"LucasF", tag="vendor")


@family("C07")
def encodings(tier):
    for eid in (1500, 1501):
        for gid in U16:
            yield Item(eid, (gid, "A.alt"), R.u16(gid) + b"A.alt", tag="enc")
        for x in range(1, 256):
            b = bytes([x])
            yield Item(eid, (5, R.text(b)), R.u16(5) + b, tag="enc")
            b = b"a" + bytes([x]) + b"b"
            yield Item(eid, (5, R.text(b)), R.u16(5) + b, tag="enc")
        for b in (b"", b"a" * 300, b"\0", b"a\0", b"a\0\0", b"\0a", b"a\0b", b" a ", b"a\n", b"\ta\r\n"):
            yield Item(eid, (256, R.text(b)), R.u16(256) + b, tag="enc")


def fea_view(s):
    """Reference for feature text: at most two consecutive blank lines are kept,
    empty lines at the end are reduced to one."""
    res = []
    blank = 0
    for line in s.splitlines():
        if line.strip():
            blank = 0
        else:
            blank += 1
            if blank > 2:
                continue
        res.append(line)
    if len(res) > 1:
        while res and res[-1] == "":
            res.pop()
    return res + [""]


@family("C07")
def feature_text(tier):
    alpha = ["", "a", " ", "# x", "feature liga {"]
    n = 6 if tier == "thorough" else 5
    seen = set()
    for k in range(0, n + 1):
        for lines in product(alpha[: 5 if k < 5 else 3], repeat=k):
            for end in ("", "\n"):
                s = "\n".join(lines) + end
                if s in seen:
                    continue
                seen.add(s)
                view = fea_view(s)
                canon = "\n".join(view).encode()
                yield Item(
                    1276,
                    fea_view(canon.decode()),
                    canon,
                    alts=(s.encode(), s.replace("\n", "\r\n").encode(), s.replace("\n", "\r").encode())
                    if fea_view(canon.decode()) == view
                    else (),
                    tag="fea",
                )
    for x in range(32, 256):
        b = b"a " + bytes([x]) + b" b\n"
        view = fea_view(R.text(b))
        yield Item(1276, view, R.untext("\n".join(view)), tag="feabyte")


@family("C07")
def class_flags(tier):
    names = ["", "A", "kern1", "x" * 108, "\u20ac\u00e4", "\0A\0", " A ", "x" * 70_000]
    for n in names:
        for f in VL:
            for k in range(2):
                fl = [0, 0]
                fl[k] = f
                yield Item(2026, {n: tuple(fl)}, R.num(1) + R.pstr(n) + R.nums(fl), tag="k")
            for k in range(3):
                fl = [0, 0, 0]
                fl[k] = f
                yield Item(2024, {n: tuple(fl)}, R.num(1) + R.pstr(n) + R.nums(fl), tag="m")
    for cnt in (0, 2, 3, 107, 108, 1132):
        d = {f"c{i}": (i, -i) for i in range(cnt)}
        yield Item(
            2026, d, R.num(cnt) + b"".join(R.pstr(k) + R.nums(v) for k, v in d.items()), tag="k"
        )
        d = {f"c{i}": (i, -i, i * 7) for i in range(cnt)}
        yield Item(
            2024, d, R.num(cnt) + b"".join(R.pstr(k) + R.nums(v) for k, v in d.items()), tag="m"
        )


# ------------------------------------------------------------------ C08

PSKEYS = [
    ("font_matrix", "d6"), ("force_bold", "i"), ("blue_values", "i14"),
    ("other_blues", "i10"), ("family_blues", "i14"), ("family_other_blues", "i10"),
    ("blue_scale", "d"), ("blue_shift", "u"), ("blue_fuzz", "u"), ("std_hw", "u"),
    ("std_vw", "u"), ("stem_snap_h", "u12"), ("stem_snap_v", "u12"),
]  # fmt: skip
PSTAIL = ("adv_width_min", "adv_width_max", "adv_width_avg", "ascender", "descender",
          "x_height", "cap_height")  # fmt: skip


def psinfo(d):
    b = b""
    for k, t in PSKEYS:
        vals = d[k] if len(t) > 1 else [d[k]]
        b += b"".join({"d": R.dbl, "i": R.i32, "u": R.u32}[t[0]](v) for v in vals)
    b += b"".join(R.i16(d["bounding_box"][k]) for k in ("xMin", "yMin", "xMax", "yMax"))
    return b + b"".join(R.i32(d[k]) for k in PSTAIL)


PSBASE = dict(
    font_matrix=[0.001, 0.0, 0.0, 0.001, 0.0, 0.0], force_bold=0,
    blue_values=list(range(14)), other_blues=list(range(-10, 0)),
    family_blues=list(range(100, 114)), family_other_blues=list(range(50, 60)),
    blue_scale=0.039625, blue_shift=7, blue_fuzz=1, std_hw=70, std_vw=80,
    stem_snap_h=list(range(12)), stem_snap_v=list(range(20, 32)),
    bounding_box=dict(xMin=-1, yMin=-200, xMax=900, yMax=800),
    adv_width_min=1, adv_width_max=2, adv_width_avg=3, ascender=750, descender=-250,
    x_height=500, cap_height=700,
)  # fmt: skip


@family("C08")
def ps_info(tier):
    doms = {}
    for k, t in PSKEYS:
        dom = {"d": DBL, "i": I32, "u": U32}[t[0]]
        if len(t) > 1:
            n = int(t[1:])
            doms[k] = [
                [v if i == j else x for j, x in enumerate(PSBASE[k])]
                for i in range(n)
                for v in dom
            ]
        else:
            doms[k] = dom
    for k in PSTAIL:
        doms[k] = I32
    doms["bounding_box"] = [
        dict(PSBASE["bounding_box"], **{k: v})
        for k in ("xMin", "yMin", "xMax", "yMax")
        for v in I16
    ]
    for d in sweep(PSBASE, doms, 3 if tier == "thorough" else 2):
        yield Item(1536, d, psinfo(d), tag="psinfo")


@family("C08")
def hint_options(tier):
    for v in range(65536) if tier == "thorough" else list(range(256)) + [
        1 << i for i in range(16)
    ] + [0xFFFF, 0xFFFE]:
        d = {"generate_flex": 1} if v & 1 else {}
        d["other"] = [i for i in range(1, 16) if v >> i & 1]
        yield Item(1093, d, R.u16(v), tag="global")
    names = {29: "hint_replacement", 30: "horizontal_3_stem", 31: "vertical_3_stem"}
    vals = [1 << i for i in range(32)] + [h << 29 | low for h in range(8) for low in range(64)]
    vals += [1 << a | 1 << b for a, b in combinations(range(32), 2)] + [0xFFFFFFFF]
    for v in vals:
        d = {n: 1 for b, n in names.items() if v >> b & 1}
        d["other"] = [i for i in range(29) if v >> i & 1]
        yield Item(2010, d, R.u32(v), tag="glyph")


@family("C08")
def mm(tier):
    for k in range(4):
        for v in U32:
            a = [3, 0, 0, 0]
            a[k] = v
            yield Item(1515, a, b"".join(map(R.u32, a)), tag="axiscount")
    for n in (0, 1, 2, 10, 40):
        m = [(DBL[i % 10], DBL[(i + 3) % 10]) for i in range(n)]
        yield Item(1516, m, b"".join(R.dbl(*p) for p in m), tag="axismap")
    for idx in U32:
        for loc in [(0.0, 0.0, 0.0, 0.0), (1.0, 0.0, 1.0, 0.0), (0.25, 0.5, 0.75, 1 / 3)]:
            yield Item(1505, (idx, loc), R.u32(idx) + R.dbl(*loc), tag="location")
    for v in DBL:
        for i in range(4):
            loc = [0.0] * 4
            loc[i] = v
            yield Item(1505, (1, tuple(loc)), R.u32(1) + R.dbl(*loc), tag="location")
    # all instance coordinates
    top = 30000 if tier == "thorough" else 10050
    for lo in range(-50, top, 50):
        inst = []
        b = b""
        for v in range(lo, lo + 50):
            vals = (v, 10000 - v, 0, v * 7)
            inst.append(dict(name=f"i{v}", values=tuple(x / 10000 for x in vals)))
            b += R.pstr(f"i{v}") + R.nums(vals)
        yield Item(1254, inst, R.num(50) + b, masters=2, tag="instances")
    for v in VL:
        for k in range(4):
            vals = [0, 10000, 0, 0]
            vals[k] = v
            inst = [dict(name="n", values=tuple(x / 10000 for x in vals))]
            yield Item(1254, inst, R.num(1) + R.pstr("n") + R.nums(vals), tag="instances")
    yield Item(1254, [], R.num(0), tag="instances")
    for nm in ("", "a" * 108, "\u00e4\u20ac"):
        inst = [dict(name=nm, values=(0.0,) * 4)] * 2
        yield Item(
            1254, inst, R.num(2) + (R.pstr(nm) + R.nums([0] * 4)) * 2, tag="instances"
        )
    # anisotropic interpolation graphs: all shapes of up to 3 axes x 3 points
    for axes in range(0, 4):
        for shape in product(range(0, 4), repeat=axes):
            view = [
                [(VL[(a * 5 + i) % len(VL)], VL[(a + i * 3) % len(VL)]) for i in range(n)]
                for a, n in enumerate(shape)
            ]
            b = b"".join(
                R.num(len(ax)) + b"".join(R.num(x) + R.num(y) for x, y in ax) for ax in view
            )
            yield Item(1523, view, b, tag="aniso")
    # MM kerning pairs
    for m in range(1, 17):
        for lr in [(0, 1), (65536, 2**32 - 1)]:
            vals = [I16[(i + m) % len(I16)] for i in range(m)]
            yield Item(
                1410,
                dict(l=lr[0], r=lr[1], values=vals),
                R.u32(lr[0]) + R.u32(lr[1]) + b"".join(map(R.i16, vals)),
                masters=m,
                tag="kernpair",
            )
    for v in I16:
        yield Item(
            1410, dict(l=1, r=2, values=[v, 0]), R.u32(1) + R.u32(2) + R.i16(v) + R.i16(0),
            masters=2, tag="kernpair",
        )  # fmt: skip


def guide_items(eid, tier):
    tans = [0, 1, -1, 107, 108, -108, 1131, 1132, 2679, -2679, 10000, -10000, 17321,
            123456, -1000000]  # fmt: skip
    for m in (1, 2, 3, 4, 16):
        for nh, nv in product(range(3), repeat=2):
            g = {
                d: [
                    [(V[(i + k) % len(V)], tans[(i * 3 + k) % len(tans)]) for k in range(m)]
                    for i in range(n)
                ]
                for d, n in (("h", nh), ("v", nv))
            }
            yield Item(eid, R.guides_view(g), R.guides(g, m), masters=m, tag="guides")
    rng = range(-20000, 20001, 1 if tier == "thorough" else 13)
    allt = list(rng) + tans
    for lo in range(0, len(allt), 100):
        ch = allt[lo : lo + 100]
        g = {"h": [[(7, t)] for t in ch], "v": [[(-7, -t)] for t in ch]}
        yield Item(eid, R.guides_view(g), R.guides(g, 1), tag="angles")
    for v in VL:
        g = {"h": [[(v, 0)]], "v": []}
        yield Item(eid, R.guides_view(g), R.guides(g, 1), tag="pos")


@family("C08")
def global_guides(tier):
    yield from guide_items(1294, tier)


def guide_props(h, v):
    view, b = {}, b""
    for d, lst in (("h", h), ("v", v)):
        view[d] = []
        for idx, color, name in lst:
            p = {"index": idx}
            b += R.num(idx)
            if color is None:
                b += R.num(-1)
            else:
                p["color"] = "#%02x%02x%02x" % (color & 255, color >> 8 & 255, color >> 16)
                b += R.num_long(color)
            if name:
                p["name"] = name
            b += R.pstr(name)
            view[d].append(p)
        b += R.num(0)
    return view, b


def guide_prop_items(eid):
    props = [(1, None, ""), (2, 0, "n"), (3, 0xFF0000, ""), (108, 0x123456, "x" * 108),
             (1132, None, "\u20ac"), (4, None, " "), (5, 7, "\t\xa0")]  # fmt: skip
    for nh, nv in product(range(3), repeat=2):
        for hs in product(props, repeat=nh):
            for vs in product(props[:3], repeat=nv):
                view, b = guide_props(list(hs), list(vs))
                yield Item(eid, view, b, tag="props")
    for c in [0xFF << s for s in (0, 8, 16)] + [0, 1, 255, 256, 0xFFFFFF, 0x010203, 108, 1131]:
        view, b = guide_props([(1, c, "c")], [])
        short_form = R.num(1) + R.num(c) + R.pstr("c") + R.num(0) + R.num(0)
        yield Item(eid, view, b, alts=(short_form,), tag="color")


@family("C08")
def global_guide_properties(tier):
    yield from guide_prop_items(1296)


# ------------------------------------------------------------------ C09

TTINFO = [
    (0x33, "max_zones"), (0x34, "max_twilight_points"), (0x35, "max_storage"),
    (0x36, "max_function_defs"), (0x37, "max_instruction_defs"),
    (0x38, "max_stack_elements"), (0x39, "head_flags"), (0x3A, "head_units_per_em"),
    (0x3B, "head_mac_style"), (0x3C, "head_lowest_rec_ppem"), (0x56, "head_creation"),
    (0x57, "head_creation2"), (0x3D, "head_font_direction_hint"),
    (0x3E, "os2_us_weight_class"), (0x3F, "os2_us_width_class"), (0x40, "os2_fs_type"),
    (0x41, "os2_y_subscript_x_size"), (0x42, "os2_y_subscript_y_size"),
    (0x43, "os2_y_subscript_x_offset"), (0x44, "os2_y_subscript_y_offset"),
    (0x45, "os2_y_superscript_x_size"), (0x46, "os2_y_superscript_y_size"),
    (0x47, "os2_y_superscript_x_offset"), (0x48, "os2_y_superscript_y_offset"),
    (0x49, "os2_y_strikeout_size"), (0x4A, "os2_y_strikeout_position"),
    (0x4B, "os2_s_family_class"), (0x4C, "OpenTypeOS2Panose"),
    (0x4D, "os2_s_typo_ascender"), (0x4E, "os2_s_typo_descender"),
    (0x4F, "os2_s_typo_line_gap"), (0x50, "os2_fs_selection"),
    (0x51, "os2_us_win_ascent"), (0x52, "os2_us_win_descent"), (0x5C, "Average Width"),
    (0x53, "Hdmx PPMs 1"), (0x58, "Hdmx PPMs 2"), (0x54, "Codepages"),
]  # fmt: skip
TTOPT = {0: "use_custom_tt_values", 1: "create_vdmx", 2: "add_null_cr_space"}


def head_flags(v):
    return {
        "flags": [i for i in range(16) if v >> i & 1],
        "options": [TTOPT.get(i, str(i)) for i in range(16) if v >> 16 + i & 1],
    }


def ttinfo(vals):
    """vals: {key number: raw value}; (view, list of (key, bytes))"""
    view, parts = {}, []
    for k, name in TTINFO:
        if k not in vals:
            continue
        v = vals[k]
        if k == 0x39:
            view[name] = head_flags(v)
            b = R.num(v)
        elif k == 0x4C:
            view[name] = list(v)
            b = bytes(v)
        elif k in (0x53, 0x58):
            view[name] = list(v)
            b = R.num(len(v)) + bytes(v)
        elif k == 0x54:
            view[name] = {"os2_ul_code_page_range1": v[0], "os2_ul_code_page_range2": v[1]}
            b = R.num(v[0]) + R.num(v[1])
        else:
            view[name] = v
            b = R.num(v)
        parts.append(R.u8(k) + b)
    return view, parts


def tt_base():
    d = {}
    for i, (k, n) in enumerate(TTINFO):
        d[k] = i * 11 - 60
    d[0x39] = 0
    d[0x4C] = (2, 11, 6, 4, 2, 2, 2, 2, 2, 4)
    d[0x53] = (9, 10, 200)
    d[0x58] = ()
    d[0x54] = (1, 0)
    return d


@family("C09")
def tt_info(tier):
    base = tt_base()
    doms = {}
    for k, n in TTINFO:
        doms[k] = VL
    doms[0x39] = (
        [0] + [1 << i for i in range(32)] + [a << 16 | b for a in range(8) for b in range(8)]
        + [0xFFFF0000, 0xFFFF, 0xFFFFFFFF]
    )  # fmt: skip
    doms[0x4C] = [
        tuple(v if i == j else 3 for j in range(10)) for i in range(10) for v in U8
    ]
    doms[0x53] = [(), (0,), (255,), tuple(range(108)), tuple(range(256))]
    doms[0x58] = doms[0x53]
    doms[0x54] = [(a, b) for a in U32 for b in U32]
    for d in sweep(base, doms, 2):
        view, parts = ttinfo(d)
        yield Item(1264, view, b"".join(parts) + b"\x32", tag="ttinfo")
    # optional keys: each one absent, and each one alone besides the required
    required = [k for k in range(0x33, 0x3A)] + [0x4C, 0x54]
    optional = [k for k, _ in TTINFO if k not in required]
    for k in optional:
        d = dict(base)
        d.pop(k)
        view, parts = ttinfo(d)
        yield Item(1264, view, b"".join(parts) + b"\x32", tag="ttinfo-without")
        d = {x: base[x] for x in required + [k]}
        view, parts = ttinfo(d)
        yield Item(1264, view, b"".join(parts) + b"\x32", tag="ttinfo-only")
    # any order of the keys is accepted
    view, parts = ttinfo(base)
    canon = b"".join(parts) + b"\x32"
    alts = [b"".join(reversed(parts)) + b"\x32"]
    alts += [b"".join(parts[i:] + parts[:i]) + b"\x32" for i in range(len(parts))]
    yield Item(1264, view, canon, alts=tuple(alts), tag="ttinfo-order")


@family("C09")
def tt_stems(tier):
    def st(i, v=80, name="x", r6=0):
        return {"value": v, "name": name, "round": {6: r6}}

    names = ["", "V: 80", "x" * 255, R.text(b"\x80\x81\xff")]
    for nv, nh in product(range(4), repeat=2):
        view = {
            "ttStemsV": [st(i, 80 + i, f"V{i}", 1000 * i) for i in range(nv)],
            "ttStemsH": [st(i, -i, f"H{i}", 2 - i) for i in range(nh)],
        }
        yield Item(1269, view, R.tt_stems(view), tag="stems")
    for v, d in product(VL, ("ttStemsV", "ttStemsH")):
        for r in (st(0, v), st(0, 1, "n", v)):
            view = {"ttStemsV": [], "ttStemsH": []}
            view[d] = [r, st(1)]
            yield Item(1269, view, R.tt_stems(view), tag="stems")
    for n, d in product(names, ("ttStemsV", "ttStemsH")):
        view = {"ttStemsV": [], "ttStemsH": []}
        view[d] = [st(0, 5, n), st(1)]
        yield Item(1269, view, R.tt_stems(view), tag="stems")
    # PPEM tables
    for eid, keys in ((1268, (2, 3, 4, 5)), (1266, (2, 3))):
        def enc(view):
            return b"".join(
                R.num(len(view[d])) + b"".join(R.nums(s["round"].values()) for s in view[d])
                for d in ("ttStemsV", "ttStemsH")
            )

        for nv, nh in product(range(4), repeat=2):
            view = {
                d: [
                    {"stem": i, "round": {k: V[(i * 5 + k + j) % len(V)] for k in keys}}
                    for i in range(n)
                ]
                for j, (d, n) in enumerate((("ttStemsV", nv), ("ttStemsH", nh)))
            }
            yield Item(eid, view, enc(view), tag="ppems")
        for k in keys:
            for v in VL:
                view = {
                    "ttStemsV": [
                        {"stem": 0, "round": {x: v if x == k else x for x in keys}}
                    ],
                    "ttStemsH": [],
                }
                yield Item(eid, view, enc(view), tag="ppems")
    # PPEM 1: sizes come from the stems record (1 V, 2 H)
    for a, b, c in product(V[:8], repeat=3):
        view = {
            "ttStemsV": [{"stem": 0, "round": {1: a}}],
            "ttStemsH": [{"stem": 0, "round": {1: b}}, {"stem": 1, "round": {1: c}}],
        }
        yield Item(1524, view, R.nums([a, b, c]), stems=STEMS, tag="ppem1")
    for v in VL:
        view = {
            "ttStemsV": [{"stem": 0, "round": {1: v}}],
            "ttStemsH": [{"stem": 0, "round": {1: 1}}, {"stem": 1, "round": {1: v}}],
        }
        yield Item(1524, view, R.nums([v, 1, v]), stems=STEMS, tag="ppem1")
    for nv, nh in product((0, 1, 2, 3, 20), repeat=2):
        view = {
            d: [{"stem": i, "round": {1: V[(i * 3 + j) % len(V)]}} for i in range(n)]
            for j, (d, n) in enumerate((("ttStemsV", nv), ("ttStemsH", nh)))
        }
        yield Item(1524, view, R.nums(s["round"][1] for d in view for s in view[d]), stems=stem_table(nv, nh), tag="ppem1")


@family("C09")
def tt_zones(tier):
    def enc(view):
        return b"".join(
            R.num(len(view[d]))
            + b"".join(
                R.num(z["position"]) + R.num(z["value"]) + R.pstr(z["name"]) for z in view[d]
            )
            for d in ("ttZonesT", "ttZonesB")
        )

    for nt, nb in product(range(4), repeat=2):
        view = {
            "ttZonesT": [dict(position=500 + i, value=10 + i, name=f"t{i}") for i in range(nt)],
            "ttZonesB": [dict(position=-i, value=-10 - i, name=f"b{i}") for i in range(nb)],
        }
        yield Item(1255, view, enc(view), tag="zones")
    for v in VL:
        for d in ("ttZonesT", "ttZonesB"):
            for k in ("position", "value"):
                view = {"ttZonesT": [], "ttZonesB": []}
                view[d] = [dict(dict(position=1, value=2, name="n"), **{k: v})]
                yield Item(1255, view, enc(view), tag="zones")
    for n in ("", "a" * 107, "b" * 108, "c" * 1132, "\u20ac"):
        view = {"ttZonesT": [dict(position=1, value=2, name=n)], "ttZonesB": []}
        yield Item(1255, view, enc(view), tag="zones")
    # deltas: every set of up to 3 out of a small universe, in every order
    from itertools import permutations

    uni = [(z, p) for z in (0, 1, 5) for p in (9, 12, 108)]
    for k in range(0, 4):
        for sel in combinations(uni, k):
            view = {}
            lst = []
            for j, (z, p) in enumerate(sel):
                sh = (8, -8, 0)[j]
                view.setdefault(z, {})[p] = sh
                lst.append((z, p, sh))
            b = R.num(k) + b"".join(R.nums(x) for x in sorted(lst))
            alts = tuple(
                R.num(k) + b"".join(R.nums(x) for x in perm)
                for perm in permutations(lst)
            )
            yield Item(1273, view, b, alts=alts, tag="deltas")
    for v in VL:
        for k in range(3):
            t = [1, 10, 8]
            t[k] = v
            yield Item(1273, {t[0]: {t[1]: t[2]}}, R.num(1) + R.nums(t), tag="deltas")
    # gasp, VDMX
    for n in range(0, 5):
        view = [dict(maxPpem=U16[(i * 3) % 10], flags=U16[(i + n) % 10]) for i in range(n)]
        yield Item(
            1265, view, b"".join(R.u16(r["maxPpem"]) + R.u16(r["flags"]) for r in view), tag="gasp"
        )
    for a, f in product(U16, repeat=2):
        yield Item(1265, [dict(maxPpem=a, flags=f)], R.u16(a) + R.u16(f), tag="gasp")
    for n in (0, 1, 2, 107, 108):
        view = [dict(pelHeight=8 + i, max=VL[i % 15], min=-VL[(i + 1) % 15]) for i in range(n)]
        yield Item(
            1271,
            view,
            R.num(n) + b"".join(R.nums([r["pelHeight"], r["max"], r["min"]]) for r in view),
            tag="vdmx",
        )
    for v in VL:
        for k in ("pelHeight", "max", "min"):
            r = dict(pelHeight=1, max=2, min=3)
            r[k] = v
            yield Item(1271, [r], R.num(1) + R.nums(r.values()), tag="vdmx")


# ------------------------------------------------------------------ C10


def node(t, flags, pts):
    return {"type": t, "flags": flags, "points": pts}


def gl(**kw):
    g = {"num_masters": 1, "nodes": [], "metrics": [(500, 0)]}
    g.update(kw)
    g.setdefault("name", "A")
    if len(g["metrics"]) != g["num_masters"]:
        g["metrics"] = [(500 + 10 * k, k) for k in range(g["num_masters"])]
    return g


def gview(g, instructions=None):
    v = R.glyph_view(g, instructions)
    if not v.get("name"):
        v.pop("name", None)
    return v


def gitem(g, tag, alts=(), instructions=None, **kw):
    return Item(
        R.GLYPH,
        gview(g, instructions),
        R.glyph(g),
        masters=g["num_masters"],
        alts=alts,
        tag=tag,
        **kw,
    )


@family("C10")
def outlines(tier):
    # all node type sequences
    n = 5 if tier == "thorough" else 4
    types = list(R.NODE)
    for m in (1, 2):
        for k in range(0, n + 1 if m == 1 else n):
            for seq in product(types, repeat=k):
                nodes = []
                for i, t in enumerate(seq):
                    c = 3 if t == "curve" else 1
                    nodes.append(
                        node(
                            t,
                            (0, 1, 4, 9)[i % 4],
                            [
                                [
                                    (V[(i * 3 + j + a) % 15], V[(i + j * 5 + a) % 15])
                                    for j in range(c)
                                ]
                                for a in range(m)
                            ],
                        )
                    )
                yield gitem(gl(nodes=nodes, num_masters=m), "types")
    # all flags
    for t, f in product(types, range(16)):
        pts = [[(1, 2)] * (3 if t == "curve" else 1)]
        yield gitem(gl(nodes=[node(t, f, pts)]), "flags")
    # all steps between two neighbouring coordinates, per axis and point
    steps = range(-1300, 1301, 1 if tier == "thorough" else 7)
    extra = [32767, -32768, 65535, 10**6, -(10**6), 2**30, -(2**30)] + V
    for d in list(steps) + extra:
        a = [[(d, 0), (d, d), (0, d)]]
        yield gitem(
            gl(nodes=[node("move", 0, [[(7, -7)]]), node("curve", 0, a)]), "steps"
        )
    # masters
    for m in range(1, 17):
        nodes = [
            node("move", 0, [[(k * 3, -k)] for k in range(m)]),
            node("curve", 1, [[(k, 1), (200 * k, 2), (3, 2000 * k)] for k in range(m)]),
            node("line", 0, [[(5 - k, 9)] for k in range(m)]),
            node("qcurve", 0, [[(5 * k, 9 - k)] for k in range(m)]),
        ]
        yield gitem(gl(nodes=nodes, num_masters=m), "masters")
    # counts at the integer length boundaries
    for c in (53, 54, 107, 108, 363, 364, 1131, 1132):
        nodes = [node("line", 0, [[(i, i * i % 977)]]) for i in range(c)]
        yield gitem(gl(nodes=nodes), "count")


@family("C10")
def glyph_names(tier):
    for b in [b"", b".notdef", b"a" * 107, b"b" * 108, b"c" * 1132] + [
        bytes([x]) for x in range(1, 256)
    ]:
        yield gitem(gl(name=R.text(b)), "name")
    # a glyph without a name, with each of the other parts
    yield gitem(gl(name="", guides={"h": [[(1, 2)]], "v": []}), "unnamed")
    # the constant at the beginning is not interpreted
    g = gl()
    yield gitem(g, "constant", alts=(R.glyph(g, constant=b"\x01\x09\x07\x02"),))


@family("C10")
def metrics(tier):
    for m in (1, 2, 4, 16):
        for v in VL:
            for k in range(min(m, 3)):
                for axis in range(2):
                    mt = [(500 + 10 * i, i) for i in range(m)]
                    xy = list(mt[k])
                    xy[axis] = v
                    mt[k] = tuple(xy)
                    yield gitem(gl(num_masters=m, metrics=mt), "metrics")
    for w in range(0, 4001, 1 if tier == "thorough" else 11):
        yield gitem(gl(metrics=[(w, -w)]), "metrics")


@family("C10")
def hints(tier):
    def h(vals, m):
        return [[dict(pos=p + k, width=w - k) for k in range(m)] for p, w in vals]

    masks = [("h", 0), ("h", 7), ("v", 0), ("v", 108), ("r", 0), ("r", -1), ("r", 1132)]
    for m in (1, 2, 16):
        for nh, nv, nm in product(range(3), range(3), range(3)):
            if not (nh or nv or nm):
                continue
            hh = {
                "h": h([(V[i * 4], V[i * 5]) for i in range(nh)], m),
                "v": h([(V[i * 3 + 1], V[i * 2]) for i in range(nv)], m),
            }
            if nm:
                for sel in product(masks, repeat=nm):
                    d = dict(hh, hintmasks=list(sel))
                    yield gitem(gl(num_masters=m, hints=d), "hints")
            else:
                yield gitem(gl(num_masters=m, hints=hh), "hints")
    for v in VL:
        for k in range(2):
            for d in "hv":
                pw = [10, 20]
                pw[k] = v
                hh = {"h": [], "v": []}
                hh[d] = h([(1, 1), tuple(pw)], 1)
                yield gitem(gl(hints=hh), "hints")
    for c in (107, 108):
        yield gitem(gl(hints={"h": [], "v": h([(i, 20) for i in range(c)], 1)}), "hints")
    # an empty hints part is the same as none
    g = gl()
    empty = R.glyph(g, order=lambda p: p + [b"\x03\x8b\x8b\x8b"])
    yield gitem(g, "nohints", alts=(empty,))


@family("C10")
def glyph_guides(tier):
    tans = [0, 1, -1, 2679, 10000, -10000, 123456]
    for m in (1, 2, 16):
        for nh, nv in product(range(3), repeat=2):
            g = {
                d: [
                    [(V[(i + k) % 15], tans[(i * 3 + k) % 7]) for k in range(m)]
                    for i in range(n)
                ]
                for d, n in (("h", nh), ("v", nv))
            }
            yield gitem(gl(num_masters=m, guides=g), "guides")
    for t in range(-12000, 12001, 1 if tier == "thorough" else 41):
        yield gitem(gl(guides={"h": [[(t % 1000, t)]], "v": [[(1, -t)]]}), "guides")


@family("C10")
def components(tier):
    scales = [(1.0, 1.0), (-1.0, 1.0), (0.5, 2.0), (1 / 3, 1e-9), (0.0, -0.0)]
    for m in (1, 2, 16):
        for n in range(0, 4):
            c = [
                dict(
                    gid=(0, 108, 65535)[i],
                    offsetX=[V[(i + k) % 15] for k in range(m)],
                    offsetY=[V[(i * 3 + k) % 15] for k in range(m)],
                    scaleX=[scales[(i + k) % 5][0] for k in range(m)],
                    scaleY=[scales[(i + k) % 5][1] for k in range(m)],
                )
                for i in range(n)
            ]
            yield gitem(gl(num_masters=m, components=c), "components")
    for v in VL:
        for k in ("gid", "offsetX", "offsetY"):
            c = dict(gid=1, offsetX=[2], offsetY=[3], scaleX=[1.0], scaleY=[1.0])
            c[k] = v if k == "gid" else [v]
            yield gitem(gl(components=[c]), "components")
    for v in DBL:
        for k in ("scaleX", "scaleY"):
            c = dict(gid=1, offsetX=[2], offsetY=[3], scaleX=[1.0], scaleY=[1.0])
            c[k] = [v]
            yield gitem(gl(components=[c]), "components")


@family("C10")
def glyph_kerning(tier):
    for m in (1, 2, 16):
        for n in (1, 2, 3, 107, 108):
            k = {i * 37: [V[(i + a) % 15] for a in range(m)] for i in range(n)}
            yield gitem(gl(num_masters=m, kerning=k), "kerning")
    for v in VL:
        yield gitem(gl(kerning={v: [1], 5: [v]} if v != 5 else {}), "kerning")


@family("C10")
def tth(tier):
    cmds = list(R.TT)
    for c in cmds:
        ps = R.TT[c][1]
        base = {p: i + 1 for i, p in enumerate(ps)}
        for p in ps:
            for v in VL:
                yield gitem(
                    gl(tth=[{"cmd": c, "params": dict(base, **{p: v})}]), "params"
                )
        for a in product((0, -1, 108), repeat=len(ps)):
            yield gitem(gl(tth=[{"cmd": c, "params": dict(zip(ps, a))}]), "params")
    n = 4 if tier == "thorough" else 2
    for k in range(2, n + 1):
        for seq in product(cmds, repeat=k):
            t = [
                {"cmd": c, "params": {p: i * 3 + j for j, p in enumerate(R.TT[c][1])}}
                for i, c in enumerate(seq)
            ]
            yield gitem(gl(tth=t), "seq")
    for k in (107, 108, 363, 364):
        t = [{"cmd": "AlignTop", "params": {"pt": i, "zone": -i}} for i in range(k)]
        yield gitem(gl(tth=t), "count")


def imp(**kw):
    d = dict(
        width=500, lsb=10, unknown1=0, unknown2=0, unknown3=0, bbox=[0, 1, 2, 3],
        num_contours=0, endpoints=[], bytecode=b"", hdmx=[],
    )  # fmt: skip
    d.update(kw)
    return d


def inode(x, y, f):
    return {"flags": f, "on": f & 1, "point": (x, y)}


@family("C10")
def imported(tier):
    for k in ("width", "lsb", "unknown1", "unknown2", "unknown3"):
        for v in VL:
            if k == "width":
                v = abs(v)
            yield gitem(gl(imported=imp(**{k: v}), nodes=[]), "metrics")
    for i in range(4):
        for v in VL:
            bb = [0, 1, 2, 3]
            bb[i] = v
            yield gitem(gl(imported=imp(bbox=bb)), "metrics")
    for m in (1, 2):
        for f in range(256):
            i = imp(num_contours=1, endpoints=[1], nodes=[inode(5, f, f), inode(-5, 1, f)])
            yield gitem(gl(num_masters=m, imported=i), "flags")
    for d in V + [32767, -32768, 65535]:
        i = imp(
            num_contours=2,
            endpoints=[1, 2],
            nodes=[inode(d, 3, 1), inode(0, d, 0), inode(d, d, 1)],
        )
        yield gitem(gl(imported=i), "nodes")
    for n in (3, 107, 108, 364):
        i = imp(
            num_contours=n,
            endpoints=list(range(n)),
            nodes=[inode(k, k * k % 91, k & 255) for k in range(n)],
        )
        yield gitem(gl(imported=i), "counts")
    yield gitem(gl(imported=imp(num_contours=-1)), "composite")
    for h in ([], [0], [255, 128], list(range(108)), list(range(256))):
        yield gitem(gl(imported=imp(hdmx=h)), "hdmx")
    # instructions: (bytecode, assembly)
    progs = [(b"\x00", ["SVTCA[0]"]), (b"\x01\x30", ["SVTCA[1]", "IUP[0]"])]
    for v in range(256):
        progs.append((bytes([0xB0, v]), ["PUSH[ ]", str(v)]))
        progs.append((bytes([0xB1, v, 255 - v]), ["PUSH[ ]", str(v), str(255 - v)]))
    for n in range(1, 9):
        vals = [(n * 31 + i * 17) & 255 for i in range(n)]
        progs.append((bytes([0xB0 + n - 1, *vals]), ["PUSH[ ]", *map(str, vals)]))
    for n in (9, 10, 108, 250):
        vals = [(n * 31 + i * 17) & 255 for i in range(n)]
        progs.append((bytes([0x40, n, *vals]), ["PUSH[ ]", *map(str, vals)]))
    # The notation of instructions is that of the fontTools assembler
    from fontTools.ttLib.tables.ttProgram import Program

    progs += [(bytes([x]), None) for x in range(256) if not 0xB0 <= x < 0xC0]
    # Programs of many instructions, with and without pushed values in between
    for n in (2, 3, 107, 108, 255, 256, 300, 1000, 33000, 70000):
        progs.append((bytes([0, 1]) * n, None))
        progs.append((bytes([0xB0, 7, 0x2F, 0xB1, 1, 2, 0x32, 0x3C]) * n, None))
    for code, _ in progs:
        if code[0] in (0x40, 0x41) and len(code) < 2:
            continue
        p = Program()
        p.fromBytecode(code)
        asm = p.getAssembly()
        q = Program()
        q.fromAssembly(asm)
        if q.getBytecode() != code:
            continue
        yield gitem(gl(imported=imp(bytecode=code)), "asm", instructions=asm)


@family("C10")
def combined(tier):
    """Every subset of the parts of a glyph, in several orders."""
    for m in (1, 2):
        full = dict(
            nodes=[node("move", 0, [[(1 + k, 2)] for k in range(m)]),
                   node("line", 4, [[(100, 2000 + k)] for k in range(m)])],
            hints={"h": [], "v": [[dict(pos=1, width=2)] * m], "hintmasks": [("v", 0)]},
            guides={"h": [[(5, 100)] * m], "v": []},
            components=[dict(gid=3, offsetX=[1] * m, offsetY=[2] * m, scaleX=[1.0] * m,
                             scaleY=[0.5] * m)],
            kerning={5: [-20] * m, 200: [10] * m},
            imported=imp(num_contours=1, endpoints=[0], nodes=[inode(1, 2, 1)]),
            tth=[{"cmd": "MDeltaH", "params": dict(pt=1, shift=-8, ppm1=9, ppm2=20)}],
        )  # fmt: skip
        ks = list(full)
        for bits in product((0, 1), repeat=len(ks)):
            g = gl(num_masters=m, **{k: full[k] for k, b in zip(ks, bits) if b})
            parts = len(R.glyph_parts(g))
            alts = [R.glyph(g, order=lambda p: p[::-1])]
            alts += [
                R.glyph(g, order=lambda p, r=r: p[r:] + p[:r]) for r in range(1, parts)
            ]
            yield gitem(g, "parts", alts=tuple(alts))


# ------------------------------------------------------------------ C11


@family("C11")
def unicodes(tier):
    for n in range(0, 4):
        for vals in product(U16[:: 1 if n < 3 else 3], repeat=n):
            yield Item(1250, list(vals), b"".join(map(R.u16, vals)), tag="bmp")
            big = [v * 0x10001 & 0xFFFFFFFF for v in vals]
            yield Item(1253, big, b"".join(map(R.u32, big)), tag="nonbmp")
    for v in range(0, 65536, 1 if tier == "thorough" else 61):
        yield Item(1250, [v], R.u16(v), tag="bmp")
    for v in U32 + [0x10000, 0x1F600, 0x10FFFF]:
        yield Item(1253, [v, 1], R.u32(v) + R.u32(1), tag="nonbmp")


@family("C11")
def links(tier):
    for ny, nx in product(range(4), repeat=2):
        view = {
            "x": [(V[i], V[i + 3]) for i in range(nx)],
            "y": [(V[i * 2], V[i]) for i in range(ny)],
        }
        b = b"".join(R.num(len(view[d])) + b"".join(R.nums(p) for p in view[d]) for d in "yx")
        yield Item(2008, view, b, tag="links")
    for v in VL:
        for d, k in product("xy", range(2)):
            p = [1, 2]
            p[k] = v
            view = {"x": [], "y": []}
            view[d] = [tuple(p)]
            b = b"".join(
                R.num(len(view[e])) + b"".join(R.nums(q) for q in view[e]) for e in "yx"
            )
            yield Item(2008, view, b, tag="links")
    for n in (107, 108):
        view = {"x": [(i, i) for i in range(n)], "y": []}
        yield Item(2008, view, R.num(0) + R.num(n) + b"".join(R.nums(p) for p in view["x"]), tag="links")  # fmt: skip


@family("C11")
def masks(tier):
    for eid in (2009, 1295):
        for m in (1, 2, 4, 16):
            for k in range(0, 4):
                for seq in product(R.NODE, repeat=k):
                    nodes = [
                        node(
                            t,
                            (i * 5) % 16,
                            [
                                [(V[(i + j + a) % 15], V[(i * 2 + a) % 15])
                                 for j in range(3 if t == "curve" else 1)]
                                for a in range(m)
                            ],
                        )
                        for i, t in enumerate(seq)
                    ]  # fmt: skip
                    if eid == 1295:
                        yield Item(
                            eid,
                            dict(num_masters=m, nodes=nodes),
                            R.outlines(nodes, m),
                            masters=m,
                            tag="mask",
                        )
                        continue
                    ws = [0, 100_000_000, 50_000_000, 12_345_678][: (k + m) % 5]
                    yield Item(
                        eid,
                        dict(
                            weight_vector=[w / 100_000_000 for w in ws],
                            num_masters=m,
                            nodes=nodes,
                        ),
                        R.num(len(ws)) + R.nums(ws) + R.outlines(nodes, m),
                        masters=m,
                        tag="mask",
                    )
    top = 100_000_001
    for w in list(range(0, top, 99_991 if tier == "quick" else 9_973)) + VL:
        yield Item(
            2009,
            dict(weight_vector=[w / 100_000_000], num_masters=1, nodes=[]),
            R.num(1) + R.num(w) + R.outlines([], 1),
            tag="weights",
        )


@family("C11")
def mask_metrics(tier):
    for x, y in product(I16, repeat=2):
        yield Item(2011, (x, y), R.i16(x) + R.i16(y), tag="mm0")
        yield Item(2027, {"x": x, "y": y}, R.i16(x) + R.i16(y), tag="origin")
    for v in range(-32768, 32768, 1 if tier == "thorough" else 97):
        yield Item(2011, (v, -1 - v), R.i16(v) + R.i16(-1 - v), tag="mm0")
    for m in range(1, 17):
        for s in range(15):
            view = [(V[(s + k) % 15], V[(s * 2 + k) % 15]) for k in range(m - 1)]
            yield Item(2028, view, b"".join(R.nums(p) for p in view), masters=m, tag="mmn")


@family("C11")
def anchors(tier):
    for m in (1, 2, 4, 16):
        for n in range(0, 4):
            for s in range(15):
                view = [
                    dict(x=[V[(s + i + k) % 15] for k in range(m)],
                         y=[V[(s * 2 + i * k) % 15] for k in range(m)])
                    for i in range(n)
                ]  # fmt: skip
                b = R.num(n) + R.num(m)
                for a in view:
                    for k in range(m):
                        b += R.num(a["x"][k]) + R.num(a["y"][k])
                yield Item(2029, view, b, masters=m, tag="mm")
    for v in VL:
        for h in VL:
            view = [dict(hue=h, data=v)]
            yield Item(2020, view, R.num(1) + R.nums([h, v]), tag="supp")
    for n in (0, 2, 3, 107, 108):
        view = [dict(hue=V[i % 15], data=V[(i + 4) % 15]) for i in range(n)]
        b = R.num(n) + b"".join(R.nums(a.values()) for a in view)
        yield Item(2020, view, b, tag="supp")


@family("C11")
def gdef(tier):
    cls = ["unassigned", "base", "ligature", "mark", "component"]

    def enc(v):
        b = R.num(cls.index(v.get("glyph_class", "unassigned")))
        an = v.get("anchors", [])
        b += R.num(len(an))
        for a in an:
            b += R.pstr(a.get("name", "")) + R.nums([a["x"], -1, a["y"], -1])
        b += R.num(len(v.get("carets", [])))
        for c in v.get("carets", []):
            b += R.nums(c)
        o = v.get("ot_classes", [])
        return b + R.num(len(o)) + R.nums(o)

    ans = [dict(x=1, y=-2, name="top"), dict(x=108, y=1132), dict(x=-1132, y=0, name="x" * 108),
           dict(x=0, y=0, name="_top")]  # fmt: skip
    for c in cls:
        for na, nc, no in product(range(3), repeat=3):
            for sel in product(ans, repeat=na):
                v = {}
                if c != "unassigned":
                    v["glyph_class"] = c
                if na:
                    v["anchors"] = list(sel)
                if nc:
                    v["carets"] = [(V[i * 3], V[i + 5]) for i in range(nc)]
                if no:
                    v["ot_classes"] = [VL[(i + no) * 3] for i in range(no)]
                yield Item(2018, v, enc(v), tag="gdef")
    for x in VL:
        for k in ("x", "y"):
            a = dict(x=1, y=2, name="a")
            a[k] = x
            v = {"anchors": [a]}
            yield Item(2018, v, enc(v), tag="anchor")
        for k in range(2):
            c = [3, 4]
            c[k] = x
            v = {"carets": [tuple(c)]}
            yield Item(2018, v, enc(v), tag="caret")
        yield Item(2018, {"ot_classes": [x]}, enc({"ot_classes": [x]}), tag="cls")
    for x in range(1, 256):
        v = {"anchors": [dict(x=0, y=0, name=R.text(bytes([x])))]}
        yield Item(2018, v, enc(v), tag="name")


@family("C11")
def sketch(tier):
    for n in range(0, 4):
        for s in range(15):
            view = [(V[(s + i) % 15], V[(s + 4 * i) % 15], V[(s * 2 + i) % 15]) for i in range(n)]
            yield Item(2019, view, R.num(n) + b"".join(map(R.nums, view)), tag="sketch")
    for v in VL:
        for k in range(3):
            t = [0, 1, 2]
            t[k] = v
            yield Item(2019, [tuple(t)], R.num(1) + R.nums(t), tag="sketch")
    for n in (107, 108, 1132):
        view = [(0, i, -i) for i in range(n)]
        yield Item(2019, view, R.num(n) + b"".join(map(R.nums, view)), tag="sketch")


@family("C11")
def vsb(tier):
    for n in range(0, 4):
        for vals in product(VL if n < 3 else V[::2], repeat=n):
            yield Item(2023, list(vals), R.nums(vals), tag="vsb")


@family("C11")
def glyph_guide_properties(tier):
    yield from guide_prop_items(2031)


# ------------------------------------------------------------------ C12


def rle_all(data, out=None, prefix=b""):
    """All run-length encodings of data (reference, exponential)."""
    if not data:
        yield prefix
        return
    for n in range(1, min(len(data), 128) + 1):
        yield from rle_all(data[n:], prefix=prefix + R.u8(n - 1) + bytes(data[:n]))
    if len(data) > 1:
        n = 1
        while n < min(len(data), 129) and data[n] == data[0]:
            n += 1
            yield from rle_all(data[n:], prefix=prefix + R.i8(1 - n) + bytes(data[:1]))


def image(data, w, h, platform, rle=None, org=(0, 0), units=(10, 20)):
    raw = [b ^ 255 for b in data] if platform == "windows" else data
    r = R.rle_canonical(raw) if rle is None else rle
    bpr = (w + 15) // 16 * 2
    rows = [list(data[i : i + bpr]) for i in range(0, len(data), bpr)] if bpr else []
    view = dict(
        origin=org,
        size_units=units,
        size_pixels=(w, h),
        bitmap=dict(data=rows, preview=R.preview(rows, w)),
    )
    return view, R.nums([*org, *units, w, h]) + R.num(len(r)) + r


def gbitmap(data, w, h, platform, ppm=12, org=(0, 0), adv=(7, 0), rle=None):
    raw = [b ^ 255 for b in data] if platform == "windows" else data
    r = R.rle_canonical(raw) if rle is None else rle
    bpr = (w + 15) // 16 * 2
    rows = [list(data[i : i + bpr]) for i in range(0, len(data), bpr)] if bpr else []
    view = dict(
        ppm=ppm,
        origin=org,
        adv=adv,
        size_pixels=(w, h),
        bitmap=dict(data=rows, preview=R.preview(rows, w)),
    )
    return view, R.nums([ppm, *org, *adv, w, h]) + R.num(len(r)) + r


PLATFORMS = ("macos", "windows")


@family("C12")
def image_runs(tier):
    """All run-length structures: every byte sequence over a small alphabet up
    to a length, with every one of its encodings."""
    nmax = 8 if tier == "thorough" else 6
    for n in range(2, nmax + 1, 2):
        for data in product((0, 255), repeat=n):
            for pf in PLATFORMS:
                view, b = image(list(data), 16, n // 2, pf)
                alts = ()
                if n <= 4 or tier == "thorough" and n <= 6:
                    raw = [x ^ 255 for x in data] if pf == "windows" else list(data)
                    alts = tuple(
                        image(list(data), 16, n // 2, pf, rle=r)[1]
                        for r in rle_all(raw)
                    )
                yield Item(2007, view, b, platform=pf, alts=alts, tag="runs")
    for data in product((0, 1, 128), repeat=4 if tier == "quick" else 6):
        view, b = image(list(data), 16, len(data) // 2, "macos")
        yield Item(2007, view, b, tag="runs3")


@family("C12")
def image_lengths(tier):
    """Runs and verbatim stretches around the 128 byte limit of a chunk."""
    ns = [1, 2, 3, 4, 126, 127, 128, 129, 130, 131, 255, 256, 257, 258, 384, 385]
    for a, b in product([0] + ns, ns):
        data = [170] * a + [(i * 7 + 1) & 255 for i in range(b)]
        data += [0] * (-len(data) % 2)
        for pf in PLATFORMS:
            view, enc = image(data, 16, len(data) // 2, pf)
            yield Item(2007, view, enc, platform=pf, tag="lengths")
        data = [(i * 7 + 1) & 255 for i in range(b)] + [170] * a + [3, 4]
        data += [0] * (-len(data) % 2)
        view, enc = image(data, 16, len(data) // 2, "macos")
        yield Item(2007, view, enc, tag="lengths")


@family("C12")
def image_sizes(tier):
    top = 130 if tier == "thorough" else 50
    for w in range(0, top):
        for h in range(0, 4):
            bpr = (w + 15) // 16 * 2
            data = [(w * 31 + i * 37) & 255 for i in range(bpr * h)]
            for pf in PLATFORMS:
                view, enc = image(data, w, h, pf)
                yield Item(2007, view, enc, platform=pf, tag="sizes")
                v2, e2 = gbitmap(data, w, h, pf)
                yield Item(2013, [v2], R.num(1) + e2, platform=pf, tag="sizes")
    # tall and wide
    for w, h in ((1, 1000), (8, 5000), (40, 300), (4096, 3), (5000, 2), (300, 300)):
        bpr = (w + 15) // 16 * 2
        for data in ([(i * 37 + i // 251) & 255 for i in range(bpr * h)], [255] * (bpr * h), [i // 130 & 255 for i in range(bpr * h)]):
            for pf in PLATFORMS:
                view, enc = image(data, w, h, pf)
                yield Item(2007, view, enc, platform=pf, tag="large")
                v2, e2 = gbitmap(data, w, h, pf)
                yield Item(2013, [v2, v2], R.num(2) + e2 + e2, platform=pf, tag="large")
    for x in range(256):
        for pf in PLATFORMS:
            view, enc = image([x, 255 - x], 16, 1, pf)
            yield Item(2007, view, enc, platform=pf, tag="bytes")
            v2, e2 = gbitmap([x, x], 9, 1, pf)
            yield Item(2013, [v2], R.num(1) + e2, platform=pf, tag="bytes")


@family("C12")
def bitmap_fields(tier):
    for v in VL + [2**31, 2**32 - 1]:
        for k in range(2):
            o = [0, 0]
            o[k] = v
            if v < 2**31:
                view, enc = image([1, 2], 16, 1, "macos", org=tuple(o))
                yield Item(2007, view, enc, tag="origin")
                v2, e2 = gbitmap([1, 2], 16, 1, "macos", org=tuple(o))
                yield Item(2013, [v2], R.num(1) + e2, tag="origin")
            if v >= 0:
                view, enc = image([1, 2], 16, 1, "macos", units=tuple(o))
                yield Item(2007, view, enc, tag="units")
                v2, e2 = gbitmap([1, 2], 16, 1, "macos", adv=tuple(o))
                yield Item(2013, [v2], R.num(1) + e2, tag="adv")
                v2, e2 = gbitmap([1, 2], 16, 1, "macos", ppm=v)
                yield Item(2013, [v2], R.num(1) + e2, tag="ppm")
    for n in (0, 2, 3, 107, 108):
        for pf in PLATFORMS:
            vs = [
                gbitmap([i & 255, (i * 3) & 255] * (i % 3), 1 + i % 16, i % 3, pf, ppm=i)
                for i in range(n)
            ]
            yield Item(
                2013,
                [a for a, _ in vs],
                R.num(n) + b"".join(b for _, b in vs),
                platform=pf,
                tag="many",
            )


# ------------------------------------------------------------ long lists

LONG = (107, 108, 109, 300, 1131, 1132, 1133)


def sequences(tier):
    """Long index sequences, and all short ones, in any order and with repetitions"""
    for n in LONG:
        yield range(n), "long"
    for n in range(1, 4 if tier == "quick" else 5):
        for s in product(range(3 if tier == "quick" else 4), repeat=n):
            yield s, "order"


@family("C11")
def long_companions(tier):
    for idx, tag in sequences(tier):
        n = len(idx)
        vals = [(i * 37) & 0xFFFF for i in idx]
        yield Item(1250, vals, b"".join(map(R.u16, vals)), tag=tag)
        yield Item(1253, [v + 0x10000 for v in vals], b"".join(R.u32(v + 0x10000) for v in vals), tag=tag)
        yield Item(2023, vals, R.nums(vals), tag=tag)
        prs = [(i, -i * 3) for i in idx]
        b = b"".join(map(R.nums, prs))
        yield Item(2008, {"x": [], "y": prs}, R.num(n) + b + R.num(0), tag=tag)
        yield Item(2008, {"x": prs, "y": prs}, (R.num(n) + b) * 2, tag=tag)
        for m in (1, 2):
            nodes = [node("move" if i % 50 == 0 else "line", i % 16, [[(i * 7 % 1000 + k, -i)] for k in range(m)]) for i in idx]
            yield Item(1295, dict(num_masters=m, nodes=nodes), R.outlines(nodes, m), masters=m, tag=tag)
            yield Item(2009, dict(weight_vector=[], num_masters=m, nodes=nodes), R.num(0) + R.outlines(nodes, m), masters=m, tag=tag)
            v = [dict(x=[i + k for k in range(m)], y=[-i * k for k in range(m)]) for i in idx]
            b = R.num(n) + R.num(m) + b"".join(R.num(a["x"][k]) + R.num(a["y"][k]) for a in v for k in range(m))
            yield Item(2029, v, b, masters=m, tag=tag)
        ans = [dict(x=i, y=-i, name=f"a{i}") for i in idx]
        car = [(i, -i) for i in idx]
        ba = R.num(n) + b"".join(R.pstr(a["name"]) + R.nums([a["x"], -1, a["y"], -1]) for a in ans)
        yield Item(2018, {"anchors": ans}, R.num(0) + ba + R.num(0) * 2, tag=tag)
        yield Item(2018, {"carets": car}, R.num(0) * 2 + R.num(n) + b"".join(map(R.nums, car)) + R.num(0), tag=tag)
        yield Item(2018, {"ot_classes": vals}, R.num(0) * 3 + R.num(n) + R.nums(vals), tag=tag)
        props = [(i + 1, (i * 77) & 0xFFFFFF if i % 3 else None, f"n{i}" if i % 2 else "") for i in idx]
        for a in ((props, []), ([], props)):
            view, b = guide_props(*a)
            yield Item(2031, view, b, tag=tag)


@family("C08")
def long_font_lists(tier):
    for idx, tag in sequences(tier):
        n = len(idx)
        for m in (1, 2):
            g = [[(i + k, i * 11 - k) for k in range(m)] for i in idx]
            for a in ({"h": g, "v": []}, {"h": [], "v": g}, {"h": g, "v": g}):
                yield Item(1294, R.guides_view(a), R.guides(a, m), masters=m, tag=tag)
        props = [(i + 1, None, f"n{i}") for i in idx]
        for a in ((props, []), ([], props)):
            view, b = guide_props(*a)
            yield Item(1296, view, b, tag=tag)


@family("C09")
def long_truetype(tier):
    for idx, tag in sequences(tier):
        n = len(idx)
        st = [{"value": i, "name": f"s{i}", "round": {6: i * 3}} for i in idx]
        zo = [dict(position=i, value=-i, name=f"z{i}") for i in idx]
        rec = R.num(n) + b"".join(R.num(z["position"]) + R.num(z["value"]) + R.pstr(z["name"]) for z in zo)
        for a, b in ((n, 1), (1, n), (n, n)):
            view = {"ttStemsV": st[:a], "ttStemsH": st[:b]}
            yield Item(1269, view, R.tt_stems(view), tag=tag)
        yield Item(1255, {"ttZonesT": zo, "ttZonesB": []}, rec + R.num(0), tag=tag)
        yield Item(1255, {"ttZonesT": [], "ttZonesB": zo}, R.num(0) + rec, tag=tag)
        for eid, keys in ((1268, (2, 3, 4, 5)), (1266, (2, 3))):
            pp = [{"stem": j, "round": {k: i * k for k in keys}} for j, i in enumerate(idx)]
            b = R.num(n) + b"".join(R.nums(p["round"].values()) for p in pp)
            yield Item(eid, {"ttStemsV": pp, "ttStemsH": []}, b + R.num(0), tag=tag)
            yield Item(eid, {"ttStemsV": [], "ttStemsH": pp}, R.num(0) + b, tag=tag)
        gasp = [dict(maxPpem=i, flags=i & 15) for i in idx]
        yield Item(1265, gasp, b"".join(R.u16(r["maxPpem"]) + R.u16(r["flags"]) for r in gasp), tag=tag)
        # deltas: many zones, many sizes
        idx = sorted(set(idx))  # deltas are written in order
        n = len(idx)
        many = {i: {12: 1 - i % 3} for i in idx}
        yield Item(1273, many, R.num(n) + b"".join(R.nums([i, 12, 1 - i % 3]) for i in idx), tag=tag)
        yield Item(1273, {2: {i + 1: i % 9 - 4 for i in idx}}, R.num(n) + b"".join(R.nums([2, i + 1, i % 9 - 4]) for i in idx), tag=tag)


@family("C10")
def long_glyph_lists(tier):
    for idx, tag in sequences(tier):
        n = len(idx)
        for m in (1, 2):
            h = [[dict(pos=i + k, width=20 - k) for k in range(m)] for i in idx]
            few = [[dict(pos=1, width=2)] * m]
            for a, b in ((h, []), ([], h), (h, few), (h, h)):
                yield gitem(gl(num_masters=m, hints={"h": a, "v": b}), tag)
            masks = [("hvr"[i % 3], i) for i in idx]
            yield gitem(gl(num_masters=m, hints={"h": few, "v": few, "hintmasks": masks}), tag)
            g = [[(i + k, i * 11 - k) for k in range(m)] for i in idx]
            for a in ({"h": g, "v": []}, {"h": [], "v": g}):
                yield gitem(gl(num_masters=m, guides=a), tag)
            c = [dict(gid=i, offsetX=[i + k for k in range(m)], offsetY=[-i] * m, scaleX=[1.0] * m, scaleY=[0.5 * k for k in range(m)]) for i in idx]
            yield gitem(gl(num_masters=m, components=c), tag)
            yield gitem(gl(num_masters=m, kerning={i: [i - k for k in range(m)] for i in dict.fromkeys(idx)}), tag)
            nodes = [node("move" if i % 50 == 0 else "line", i % 16, [[(i * 7 % 1000 + k, -i)] for k in range(m)]) for i in idx]
            yield gitem(gl(num_masters=m, nodes=nodes), tag)
            nodes = [nodes[0]] + [node("curve", 0, [[(i * 30 + j, k - i) for j in range(3)] for k in range(m)]) for i in idx[1:]]
            yield gitem(gl(num_masters=m, nodes=nodes), tag)
        yield gitem(gl(tth=[{"cmd": "MDeltaH", "params": dict(pt=i, shift=-8, ppm1=9, ppm2=20)} for i in idx]), tag)


@family("C07")
def long_features(tier):
    for idx, tag in sequences(tier):
        n = len(idx)
        lines = [f"line {i}" if i % 4 else "" for i in idx] + ["end"]
        s = "\n".join(lines) + "\n"
        yield Item(1276, fea_view(s), "\n".join(fea_view(s)).encode(), tag=tag)
        s = "x" * n + "\n"
        yield Item(1276, fea_view(s), "\n".join(fea_view(s)).encode(), tag=tag)
