"""Container framing: all files of up to n entries over an alphabet of entries
(IDs and payload sizes around the 16/32 bit limits), read, rewritten, rebuilt."""
from io import BytesIO
from itertools import product

from mc import ref as R

PID = "C02"
RULE = (
    "all entry sequences up to the stated length over the alphabet; a state is a file; "
    "each is read, framed by the reference, rewritten, and rebuilt from its entries"
)
BOUNDS = {
    "quick": "up to 3 entries over 15 kinds, all payload lengths 0..1200 and around 2^16 and 2^24, up to 65537 entries, all IDs",
    "thorough": "up to 4 entries over 15 kinds, all payload lengths 0..66000",
}
CHUNK = 4


def blob(n, salt=0):
    return bytes((i * 31 + salt) & 255 for i in range(n))


#  (id, data, long form flagged)
ALPHA = [
    (1, b"", False),
    (1262, b"\x00", False),
    (1262, blob(5), True),
    (1262, blob(0xFFFF), False),
    (1262, blob(0xFFFF), True),
    (1262, blob(0x10000), True),
    (1026, b"Name", False),
    (1026, b"", True),
    (3, blob(3), False),
    (0x7FFF, blob(7), False),
    (0, blob(2), False),
    (2001, R.glyph({"num_masters": 2, "name": "a", "metrics": [(1, 2), (3, 4)]}), False),
    (1410, blob(12), False),
    (2, b"", False),
    (R.STEM_ID, R.tt_stems({"ttStemsV": [{"value": 80, "name": "v", "round": {6: 5}}], "ttStemsH": []}), False),
]  # fmt: skip
DECODED_ON_READ = (R.FLVERSION, R.MASTERCOUNT, R.STEM_ID)


def check_file(b, out, what):
    from vfbLib.vfb.entry import VfbEntry
    from vfbLib.vfb.vfb import Vfb

    head, entries = R.parse_file(b)
    out.state(b)
    v = Vfb(timing=False)
    v.read_bytes(BytesIO(b))
    out.trans()
    ids = [e.id for e in v.entries]
    if ids != [e for e, _ in entries]:
        out.fail("framing/ids", f"{what}: records {ids}, expected {[e for e, _ in entries]}")
        return
    for e, (eid, data) in zip(v.entries, entries):
        if eid not in DECODED_ON_READ and bytes(e.data) != data:
            out.fail("framing/data", f"{what}: record {eid} has {len(e.data)} bytes, expected {len(data)}")
            return
    canon = R.write_file(head, entries)
    w = BytesIO()
    v.write_bytes(w)
    out.trans()
    if w.getvalue() != canon:
        g = w.getvalue()
        i = next((i for i, (x, y) in enumerate(zip(g, canon)) if x != y), min(len(g), len(canon)))
        out.fail("framing/rewrite", f"{what}: rewritten file differs from offset {i}: {g[i:i+12].hex()} expected {canon[i:i+12].hex()} (lengths {len(g)}, {len(canon)})")
        return
    # rebuild a file from its entries through the API
    n = Vfb()
    n.header.data = dict(head)
    for eid, data in entries:
        e = VfbEntry(n, eid=eid)
        e.data = data
        if e.size != len(data) or e.header + data != R.entry(eid, data):
            out.fail("framing/header", f"{what}: entry {eid} with {len(data)} bytes: header {e.header.hex()}, expected {R.entry(eid, data)[:6].hex()}")
        n.add_entry(e)
    w = BytesIO()
    n.write_bytes(w)
    out.trans()
    if w.getvalue() != canon:
        out.fail("framing/build", f"{what}: the file built from the same entries differs")
    # read the rewritten file
    v2 = Vfb(timing=False)
    v2.read_bytes(BytesIO(canon))
    if [e.id for e in v2.entries] != ids or (
        [e.data for e in v2.entries if e.id not in DECODED_ON_READ]
        != [d for e, d in entries if e not in DECODED_ON_READ]
    ):
        out.fail("framing/reread", f"{what}: reading the rewritten file gives other entries")
    out.trans()
    out.trace()


def prolog(masters=2, platform="macos"):
    return R.entry(R.FLVERSION, R.flversion(platform)) + R.entry(
        R.MASTERCOUNT, R.u16(masters)
    )


def seqs(payload, out):
    first, n, end = payload
    for rest in product(range(len(ALPHA)), repeat=n - 1):
        idx = [first, *rest]
        if sum(len(ALPHA[i][1]) > 60000 for i in idx) > (1 if n > 2 else 2):
            continue
        b = R.header(1) + prolog()
        b += b"".join(R.entry(*ALPHA[i]) for i in idx)
        if end:
            b += R.entry(R.END, b"")
        check_file(b, out, f"entries {[ALPHA[i][0] for i in idx]}")


def sizes(payload, out):
    lo, hi, step = payload
    for n in range(lo, hi, step):
        for long in (False, True):
            if n > 0xFFFF and not long:
                continue
            b = R.header(0) + R.entry(1262, blob(n, n), long) + R.entry(END, b"")
            check_file(b, out, f"payload of {n} bytes")


END = R.END


def large(n, out):
    """One large record, or many records"""
    if n < 0:
        b = R.header(0) + b"".join(R.entry(1262, blob(i % 5, i)) for i in range(-n)) + R.entry(END, b"")
        check_file(b, out, f"{-n} records")
    else:
        b = R.header(0) + R.entry(1262, bytes(range(256)) * (n >> 8) + bytes(n & 255)) + R.entry(1026, b"end") + R.entry(END, b"")
        check_file(b, out, f"payload of {n} bytes")


def ids(payload, out):
    lo, hi = payload
    for eid in range(lo, hi):
        if eid in (*DECODED_ON_READ, END, 1410):
            continue
        for long in (False, True):
            b = R.header(0) + R.entry(eid, blob(4, eid), long) + R.entry(END, b"")
            check_file(b, out, f"entry ID {eid}")


def heads(payload, out):
    minor, offset, fill, tail = payload
    b = R.header(minor, offset, fill) + prolog(1) + R.entry(1262, b"ab") + R.entry(END, b"")
    check_file(b + bytes.fromhex(tail), out, f"header minor {minor} offset {offset}")
    from vfbLib.vfb.vfb import Vfb

    v = Vfb(timing=False)
    v.read_bytes(BytesIO(b))
    v.header.decompile()
    want = dict(R.HEADER_VIEW, version_minor=minor)
    if dict(v.header.data) != want:
        out.fail("heads/view", f"header {v.header.data}, expected {want}")


def kernpairs(payload, out):
    (m,) = payload
    for n in range(0, 4):
        for lie in (0, 1, 8 + 2 * m, 0xFFFF):
            b = R.header(0) + prolog(m)
            for i in range(n):
                d = R.u32(i) + R.u32(i + 1) + b"".join(R.i16(-i - k) for k in range(m))
                b += R.u16(1410) + R.u16(lie) + d
            b += R.entry(1262, b"xyz") + R.entry(END, b"")
            check_file(b, out, f"{n} kern pairs, {m} masters, stored size {lie}")


KINDS = dict(seqs=seqs, sizes=sizes, ids=ids, heads=heads, kernpairs=kernpairs, large=large)


def cases(tier):
    for n in range(1, 4 if tier == "quick" else 5):
        for f in range(len(ALPHA)):
            for end in (True, False):
                if n == 4 and not end:
                    continue
                yield "seqs", [f, n, end]
    top = 66000 if tier == "thorough" else 1200
    for lo in range(0, top, 200):
        yield "sizes", [lo, lo + 200, 1 if lo < 1200 else 7]
    yield "sizes", [0xFFFC, 0x10004, 1]
    yield "sizes", [131070, 131074, 1]
    for lo in range(0, 0x8000, 512):
        yield "ids", [lo, lo + 512]
    for minor in range(256):
        yield "heads", [minor, 44, 0, ""]
    for off in list(range(12, 80)) + [255, 256, 257, 1000, 70000]:
        for fill in (0, 255):
            yield "heads", [2, off, fill, ""]
    for tail in ("00", "0200", "0200000001", "ffffffff", "e2040000"):
        yield "heads", [0, 44, 0, tail]
    for m in range(1, 17):
        yield "kernpairs", [m]
    for n in (0x7FFFFF, 0x1000000, 0x1000001, -0x7FFF, -0x10001):
        yield "large", n
