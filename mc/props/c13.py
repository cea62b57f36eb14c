"""Damaged payloads: every prefix and every single-byte change of payloads of
every record type.  Decoding ends, and either fails and keeps the bytes, or
gives a structure that survives being written and read again."""
from io import BytesIO
from itertools import combinations, permutations

from mc import codec
from mc import ref as R
from mc.core import norm, short

PID = "C13"
RULE = (
    "for each record family, payloads of distinct shapes: all prefixes, all one-byte "
    "extensions, all single-byte changes over the listed values, all byte deletions; unknown keys of records that consist of keys and values; a "
    "state is a damaged payload"
)
BOUNDS = {
    "quick": "up to 10 payloads of at most 160 bytes per family and tag, changes to 24 values",
    "thorough": "up to 60 payloads of at most 400 bytes per family and tag, changes to all 256 values",
}
CHUNK = 1
CASE_LIMIT = 60
PROCS = 8
VALUES = [0, 1, 2, 4, 0x0F, 0x1F, 0x20, 0x28, 0x2C, 0x32, 0x64, 0x7F, 0x80, 0x8A, 0x8B, 0x8C,
          0x8D, 0xF6, 0xF7, 0xFA, 0xFB, 0xFE, 0xFF, 0x2B]  # fmt: skip
ONE_LIMIT = 5.0
# Records with a text or number that may be padded with zeros, and feature code
PADDED = {257, 518, *range(1024, 1029), 1037, 1038, 1039, 1046, 1056, 1059, 1061, 1062, 1063, 1064, 1065, 1066, 1069, 1070, 1092,
          1121, 1127, 1128, 1129, 1137, 1139, 1140, 1277, 1504, 1514, 1523, 2015, 2016, 2017, 2021, 2023, 2025, 2034}  # fmt: skip


def select(pid, name, tier):
    per = 60 if tier == "thorough" else 10
    top = 400 if tier == "thorough" else 160
    groups = {}
    for k, it in enumerate(codec.items(pid, name, "quick")):
        if 0 < len(it.data) <= top:
            groups.setdefault((it.eid, it.tag), []).append(k)
    res = []
    for ks in groups.values():
        step = max(1, len(ks) // per)
        res += ks[::step][:per]
    return res


def damaged(data, values):
    for n in range(len(data)):
        yield "cut", data[:n]
    for x in (0, 1, 0x1F, 0x8B, 0xFF):
        yield "extended", data + bytes([x])
    for i in range(len(data)):
        yield "deleted", data[:i] + data[i + 1 :]
        for x in values:
            if x != data[i]:
                yield "changed", data[:i] + bytes([x]) + data[i + 1 :]


def shape(payload, out):
    import signal

    pid, name, k, values = payload
    it = codec.items(pid, name, "quick")[k]
    from vfbLib.vfb.entry import VfbEntry
    from vfbLib.vfb.vfb import Vfb

    vfb = Vfb(timing=False)
    vfb.read_bytes(BytesIO(R.vfb_file([], masters=it.masters, platform=it.platform, stems=it.stems)))
    vals = range(256) if values == "all" else VALUES
    for how, b in damaged(it.data, vals):
        out.state(b"%d/%d/" % (it.eid, it.masters) + b)
        judge(vfb, it.eid, b, how, out, ("bytes", [it.eid, b.hex(), it.masters, it.platform, it.stems, how]))
        if len(out.fails) > 20:
            return


def judge(vfb, eid, b, how, out, replay):
    import signal

    from vfbLib.vfb.entry import VfbEntry

    e = VfbEntry(vfb, eid=eid)
    e.data = b
    out.trans()
    signal.setitimer(signal.ITIMER_REAL, ONE_LIMIT)
    what = f"record {eid}, payload {short(b.hex(), 300)} ({how})"
    try:
        e.decompile()
    except (MemoryError, RecursionError) as x:
        out.fail(f"{eid}/{type(x).__name__}", what, replay)
        return
    except Exception:
        if e.data != b:
            out.fail(f"{eid}/lost", f"{what}: decompiling failed, and the bytes are now {short(e.data, 200)}", replay)
        if not vfb.any_errors:
            out.fail(f"{eid}/unnoticed", f"{what}: decompiling failed, but the font has no errors", replay)
        vfb.any_errors = False
        out.count("refused")
        return
    except BaseException as x:
        if type(x).__name__ == "Hang":
            out.fail(f"{eid}/hang", f"{what}: decompiling does not end", replay)
            return
        raise
    finally:
        signal.setitimer(signal.ITIMER_REAL, 60)
    s = e.data
    keep = norm(s)
    try:
        e.compile()
    except Exception as x:
        # The structure is not writable: saving must fail with the data intact
        out.count("unwritable")
        return
    c = e.data
    if how in ("cut", "extended") and c != b and eid != 1276 and not (eid in PADDED and c.strip(b"\0") == b.strip(b"\0")):
        out.fail(f"{eid}/ignored", f"{what}: accepted as {short(keep, 200)}, which is written as {short(c.hex(), 200)}", replay)
    try:
        e.decompile()
        out.trans()
    except Exception as x:
        out.fail(f"{eid}/unreadable", f"{what}: accepted as {short(keep, 200)}, written as {short(c.hex(), 200)}, which cannot be read ({type(x).__name__})", replay)
        return
    if eid == 1138 and any("\ufeff" in r[4] for r in keep):
        # The documented replacement for codes that are no characters
        out.count("replaced")
        return
    again = norm(e.data)
    if eid == 2001:
        # An empty part of a glyph is the same as none
        keep, again = [
            {
                k: {a: b for a, b in v.items() if b} if k == "imported" else v
                for k, v in d.items()
                if v or k in ("num_masters", "nodes", "metrics")
            }
            for d in (keep, again)
        ]
    if again != keep:
        from mc.core import first_diff

        p, x, y = first_diff(again, keep)
        out.fail(f"{eid}/unstable", f"{what}: accepted, but written and read again gives at {p}: {short(x, 200)} instead of {short(y, 200)}", replay)
    out.count("accepted")
    out.trace()


def bytes_(payload, out):
    eid, h, masters, platform, stems, *how = payload
    from vfbLib.vfb.vfb import Vfb

    if stems:
        stems = codec.stem_table(len(stems["ttStemsV"]), len(stems["ttStemsH"]))
    vfb = Vfb(timing=False)
    vfb.read_bytes(BytesIO(R.vfb_file([], masters=masters, platform=platform, stems=stems)))
    judge(vfb, eid, bytes.fromhex(h), how[0] if how else "replayed", out, ("bytes", payload))


KEYED = {1742: "mapping", 1743: "none", 1744: "export", 1093: "global", 2010: "glyph", 1264: "ttinfo-only"}


def keys(_, out):
    """Unknown keys of tagged records: refused or kept"""
    from vfbLib.vfb.entry import VfbEntry
    from vfbLib.vfb.vfb import Vfb

    vfb = Vfb(timing=False)
    vfb.read_bytes(BytesIO(R.vfb_file([])))
    for pid in ("C06", "C07", "C08", "C09", "C11"):
        for name in codec.FAMILIES[pid]:
            seen = set()
            for it in codec.items(pid, name, "quick"):
                if KEYED.get(it.eid) != it.tag or len(it.data) > 100 or len(it.data) in seen:
                    continue
                seen.add(len(it.data))
                for x in range(256):
                    for b in (bytes([x]) + it.data[1:], bytes([x, 0x8B]) + it.data)[: 2 if it.eid == 1742 and x > 4 else 1]:
                        e = VfbEntry(vfb, eid=it.eid)
                        e.data = b
                        out.state(b"%d/" % it.eid + b)
                        try:
                            e.decompile()
                            view = short(e.data, 200)
                            e.compile()
                        except Exception:
                            continue
                        finally:
                            vfb.any_errors = False
                        out.trans()
                        if e.data != b and b[:1] != b"\xff":
                            out.fail(f"{it.eid}/key", f"record {it.eid}, payload {b.hex()}: accepted as {view}, which is written as {e.data.hex()}")
    out.trace()


def errors(_, out):
    """A font is said to have errors as long as it has damaged records"""
    from vfbLib.vfb.vfb import Vfb

    good = {1048: R.i16(400), 1029: R.dbl(12.5), 1523: R.nums([2, 0, 0, 5, 5]), 1118: bytes(10)}
    bad = {1048: b"\x01", 1029: b"\x01", 1523: R.nums([2, 0]), 1118: b"\x01"}
    for n in range(len(good) + 1):
        for which in combinations(good, n):
            for order in permutations(which):
                vfb = Vfb(timing=False)
                vfb.read_bytes(BytesIO(R.vfb_file([(i, bad[i] if i in which else b) for i, b in good.items()])))
                es = {e.id: e for e in vfb.entries}
                for k in range(len(order) + 1):
                    what = f"damaged {which}, repaired {order[:k]}"
                    out.state(what)
                    try:
                        vfb.decompile()
                        ok = True
                    except Exception:
                        ok = False
                    out.trans()
                    want = not order[k:]
                    if (ok, bool(vfb.any_errors)) != (want, not want):
                        out.fail("errors", f"{what}: decompiling {'succeeds' if ok else 'fails'}, errors: {vfb.any_errors}")
                    if k < len(order):
                        es[order[k]].data = good[order[k]]
                out.trace()


KINDS = dict(shape=shape, bytes=bytes_, keys=keys, errors=errors)


def cases(tier):
    yield "keys", None
    yield "errors", None
    for pid in ("C06", "C07", "C08", "C09", "C10", "C11", "C12"):
        for name in codec.FAMILIES[pid]:
            for k in select(pid, name, tier):
                yield "shape", [pid, name, k, "all" if tier == "thorough" else "some"]
