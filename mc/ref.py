"""Reference encoder for the VFB format, written from the format description
alone (nothing is imported from the code under test).

Every enc_* function maps a decompiled structure to its canonical bytes.
"""

from __future__ import annotations

import struct

CP1252_HI = (
    "\u20ac\x81\u201a\u0192\u201e\u2026\u2020\u2021\u02c6\u2030\u0160\u2039\u0152\x8d\u017d\x8f"
    "\x90\u2018\u2019\u201c\u201d\u2022\u2013\u2014\u02dc\u2122\u0161\u203a\u0153\x9d\u017e\u0178"
)
CHARS = [chr(i) for i in range(128)] + list(CP1252_HI) + [chr(i) for i in range(160, 256)]
BYTE = {c: i for i, c in enumerate(CHARS)}


def text(b: bytes) -> str:
    return "".join(CHARS[x] for x in b)


def untext(s: str) -> bytes:
    return bytes(BYTE[c] for c in s)


def num(v: int, signed=True) -> bytes:
    """The shortest form of an encoded integer."""
    if -107 <= v <= 107:
        return bytes([v + 139])
    if 108 <= v <= 1131:
        n = v - 108
        return bytes([247 + (n >> 8), n & 255])
    if -1131 <= v <= -108:
        n = -v - 108
        return bytes([251 + (n >> 8), n & 255])
    return num_long(v)


def num_long(v: int) -> bytes:
    return b"\xff" + (v & 0xFFFFFFFF).to_bytes(4, "big")


def unnum(b: bytes, i: int = 0, signed=True):
    """Decode one encoded integer: (value, next index), or None if the bytes at
    i are no complete integer."""
    if i >= len(b):
        return None
    c = b[i]
    if c < 32:
        return None
    if c < 247:
        return c - 139, i + 1
    if c == 255:
        if i + 5 > len(b):
            return None
        v = int.from_bytes(b[i + 1 : i + 5], "big")
        if signed and v >= 1 << 31:
            v -= 1 << 32
        return v, i + 5
    if i + 2 > len(b):
        return None
    if c < 251:
        return (c - 247) * 256 + b[i + 1] + 108, i + 2
    return -(c - 251) * 256 - b[i + 1] - 108, i + 2


def u8(v):
    return struct.pack("<B", v)


def i8(v):
    return struct.pack("<b", v)


def u16(v):
    return struct.pack("<H", v)


def i16(v):
    return struct.pack("<h", v)


def u32(v):
    return struct.pack("<I", v)


def i32(v):
    return struct.pack("<i", v)


def dbl(*v):
    return struct.pack("<%dd" % len(v), *v)


def nums(vs):
    return b"".join(num(v) for v in vs)


def pstr(s):
    """A string preceded by its length"""
    b = untext(s)
    return num(len(b)) + b


def header(minor=0, offset=44, fill=0):
    return (
        struct.pack("<IBBBBI", 0x464C571A, 0x31, 0x30, 3, minor, offset)
        + bytes([fill]) * (offset - 12)
    )


HEADER_VIEW = dict(
    signature=0x464C571A,
    app_version=0x31,
    file_version=0x30,
    version_major=3,
)


def entry(eid, data, long=None):
    if long is None:
        long = len(data) > 0xFFFF
    if long:
        return u16(eid | 0x8000) + u32(len(data)) + data
    return u16(eid) + u16(len(data)) + data


FLVERSION, MASTERCOUNT, STEMS, END, GLYPH = 10, 1503, 1524, 2, 2001


def flversion(platform="macos", version=(5, 2, 2, 128), owner=0):
    return (
        b"\x01"
        + num({"windows": 0, "macos": 1}[platform])
        + b"\x02\xff"
        + bytes(version)
        + b"\x03"
        + num(owner)
        + b"\x00"
    )


def vfb_file(entries, masters=1, platform="macos", stems=None, minor=0):
    """A file: the given (id, data) entries between the usual first entries and
    the end marker."""
    b = header(minor) + entry(FLVERSION, flversion(platform))
    b += entry(MASTERCOUNT, u16(masters))
    if stems is not None:
        b += entry(STEM_ID, tt_stems(stems))
    for eid, data in entries:
        b += entry(eid, data)
    return b + entry(END, b"")


STEM_ID = 1269


# ---------------------------------------------------------------- structures


def tt_stems(view):
    b = b""
    for d in ("ttStemsV", "ttStemsH"):
        b += num(len(view[d]))
        for s in view[d]:
            n = untext(s["name"])
            b += num(s["value"]) + u8(len(n)) + n + num(s["round"][6])
    return b


def guides(view, masters):
    """view here has integer tangents: {"h": [[(pos, tan), ...per master]]}"""
    b = b""
    for d in "hv":
        b += num(len(view[d]))
        for g in view[d]:
            for pos, tan in g[:masters]:
                b += num(pos) + num(tan)
    return b


def guides_view(g):
    from math import atan2, degrees

    return {
        d: [
            [{"pos": p, "angle": degrees(atan2(t, 10000))} for p, t in mg]
            for mg in g[d]
        ]
        for d in "hv"
    }


NODE = {"move": 0, "line": 1, "curve": 3, "qcurve": 4}


def outlines(nodes, masters, first=True):
    b = num(masters)
    body = b""
    count = 0
    ref = [(0, 0)] * masters
    for n in nodes:
        body += u8(n["flags"] << 4 | NODE[n["type"]])
        count += 1
        for j in range(3 if n["type"] == "curve" else 1):
            for m in range(masters):
                x, y = n["points"][m][j]
                body += num(x - ref[m][0]) + num(y - ref[m][1])
                ref[m] = (x, y)
                count += 2
    return b + num(2 * count) + num(len(nodes)) + body


TT = {
    "AlignTop": (1, ["pt", "zone"]),
    "AlignBottom": (2, ["pt", "zone"]),
    "SingleLinkH": (3, ["pt1", "pt2", "stem", "align"]),
    "SingleLinkV": (4, ["pt1", "pt2", "stem", "align"]),
    "DoubleLinkH": (5, ["pt1", "pt2", "stem"]),
    "DoubleLinkV": (6, ["pt1", "pt2", "stem"]),
    "AlignH": (7, ["pt", "align"]),
    "AlignV": (8, ["pt", "align"]),
    "InterpolateH": (13, ["pti", "pt1", "pt2", "align"]),
    "InterpolateV": (14, ["pti", "pt1", "pt2", "align"]),
    "MDeltaH": (20, ["pt", "shift", "ppm1", "ppm2"]),
    "MDeltaV": (21, ["pt", "shift", "ppm1", "ppm2"]),
    "FDeltaH": (22, ["pt", "shift", "ppm1", "ppm2"]),
    "FDeltaV": (23, ["pt", "shift", "ppm1", "ppm2"]),
}


def glyph_parts(g):
    m = g["num_masters"]
    parts = []
    if g.get("metrics"):
        parts.append(b"\x02" + b"".join(num(x) + num(y) for x, y in g["metrics"]))
    if g.get("hints"):
        h = g["hints"]
        b = b"\x03"
        for d in "hv":
            b += num(len(h[d]))
            for mh in h[d]:
                for k in range(m):
                    b += num(mh[k]["pos"]) + num(mh[k]["width"])
        masks = h.get("hintmasks", [])
        b += num(len(masks))
        for k, v in masks:
            b += {"h": b"\x01", "v": b"\x02", "r": b"\xff"}[k] + num(v)
        parts.append(b)
    if g.get("guides"):
        parts.append(b"\x04" + guides(g["guides"], m))
    if g.get("components"):
        b = b"\x05" + num(len(g["components"]))
        for c in g["components"]:
            b += num(c["gid"])
            for k in range(m):
                b += num(c["offsetX"][k]) + num(c["offsetY"][k])
                b += dbl(c["scaleX"][k], c["scaleY"][k])
        parts.append(b)
    if g.get("kerning"):
        b = b"\x06" + num(len(g["kerning"]))
        for gid, vals in g["kerning"].items():
            b += num(gid) + nums(vals)
        parts.append(b)
    if g.get("imported"):
        i = g["imported"]
        b = b"\x09\x29" + num(i["width"])
        b += nums([i["lsb"], i["unknown1"], i["unknown2"], i["unknown3"], *i["bbox"]])
        b += b"\x2a" + num(i["num_contours"]) + nums(i["endpoints"])
        nodes = i.get("nodes", [])
        b += num(len(nodes))
        x0 = y0 = 0
        for n in nodes:
            x, y = n["point"]
            b += num(x - x0) + num(y - y0) + u8(n["flags"])
            x0, y0 = x, y
        code = i["bytecode"]
        b += b"\x2b" + num(len(code)) + code
        b += b"\x2c" + num(len(i["hdmx"])) + bytes(i["hdmx"]) + b"\x28"
        parts.append(b)
    if g.get("tth"):
        parts.append(tth_block(g["tth"]))
    return parts


def glyph(g, order=None, constant=b"\x01\x09\x07\x01"):
    """g: the decompiled glyph, except for guides (integer tangents) and
    imported instructions (raw bytes under "bytecode")."""
    b = constant
    if g.get("name"):
        b += b"\x01" + pstr(g["name"])
    b += b"\x08" + outlines(g.get("nodes") or [], g["num_masters"])
    parts = glyph_parts(g)
    if order:
        parts = order(parts)
    return b + b"".join(parts) + b"\x0f"


def tth_block(cmds):
    t = num(len(cmds))
    for c in cmds:
        cid, params = TT[c["cmd"]]
        t += u8(cid) + nums(c["params"][p] for p in params)
    t += nums([0, 0, 0])
    return b"\x0a" + num(len(t)) + t


def glyph_view(g, instructions=None):
    """What decompiling glyph(g) must yield."""
    v = {"num_masters": g["num_masters"], "nodes": []}
    for k, x in g.items():
        if k == "guides":
            if x:
                v[k] = guides_view(x)
        elif k == "imported":
            if x:
                i = dict(x)
                code = i.pop("bytecode")
                i["instructions"] = instructions if instructions is not None else []
                if not i.get("nodes"):
                    i.pop("nodes", None)
                v[k] = i
        elif k == "hints":
            if x:
                v[k] = x
        elif k in ("num_masters", "nodes", "metrics") or x:
            v[k] = x
    return v


def rle_canonical(data):
    """Run-length encode the way the writer does: runs of 3 and more bytes are
    repeated (at most 128), anything else is written verbatim (at most 128)."""
    runs = []
    for b in data:
        if runs and runs[-1][0] == b:
            runs[-1][1] += 1
        else:
            runs.append([b, 1])
    out = b""
    lit = b""

    def flush(lit):
        r = b""
        for i in range(0, len(lit), 128):
            c = lit[i : i + 128]
            r += u8(len(c) - 1) + c
        return r

    for b, n in runs:
        if n > 2:
            out += flush(lit)
            lit = b""
            while n:
                k = min(n, 128)
                out += i8(1 - k) + u8(b)
                n -= k
        else:
            lit += bytes([b]) * n
    return out + flush(lit)


def rle_decode(b):
    out = []
    i = 0
    while i < len(b):
        v = struct.unpack_from("<b", b, i)[0]
        if v >= 0:
            out += b[i + 1 : i + 2 + v]
            i += 2 + v
        else:
            out += [b[i + 1]] * (1 - v)
            i += 2
    return out


def preview(rows, w):
    return [
        "".join(" \u2595" if c == "0" else "\u2588\u2589" for r in row for c in f"{r:08b}")[
            : 2 * w
        ]
        for row in rows
    ]


class Damaged(Exception):
    pass


def parse_file(b, masters_of=None):
    """Framing of a file: (header dict, [(id, data)]), or Damaged.  A file ends
    after the end marker, or at an entry boundary."""
    if len(b) < 12 or b[:7] != struct.pack("<IBBB", 0x464C571A, 0x31, 0x30, 3):
        raise Damaged("header")
    head = dict(HEADER_VIEW, version_minor=b[7])
    i = struct.unpack_from("<I", b, 8)[0]
    masters = 0
    entries = []
    while i < len(b):
        if i + 2 > len(b):
            raise Damaged("entry ID")
        raw = struct.unpack_from("<H", b, i)[0]
        i += 2
        eid = raw & 0x7FFF
        w = 4 if raw & 0x8000 else 2
        if i + w > len(b):
            raise Damaged("entry size")
        size = int.from_bytes(b[i : i + w], "little")
        i += w
        if eid == 1410:
            size = 8 + 2 * masters
        if i + size > len(b):
            raise Damaged("entry data")
        data = b[i : i + size]
        i += size
        if eid == MASTERCOUNT and size == 2:
            masters = struct.unpack("<H", data)[0]
        entries.append((eid, data))
        if eid == END:
            break
    return head, entries


def write_file(head, entries):
    return header(head["version_minor"]) + b"".join(entry(e, d) for e, d in entries)
