"""Conversion helpers: FontLab time stamps, bit lists, Adobe hinting data, split feature code."""
import subprocess
import sys
from datetime import UTC, datetime, timedelta, timezone
from itertools import product

from mc.core import short

PID = "C28"
RULE = (
    "the first and last seconds of every day and every stored 32 bit value around the sign change; all bit lists over 12 bits and all pairs and triples over 32; "
    "all hint lists up to the stated size over a value grid; all sequences of feature code lines up to the stated length; a state is a value"
)
BOUNDS = {
    "quick": "4 seconds of each of the 25 600 days, 16 time zones; 4096 bit lists, all pairs of 130 bits, all lists of up to 4 bits with repetitions; hint sets of up to 2 sets of 2 of 22 stems; feature code of 4 of 13 lines",
    "thorough": "40 seconds of each day; 65536 bit lists; hint sets of 2 sets of 3 stems; 5 lines",
}
CHUNK = 1
CASE_LIMIT = 300
ZERO = 2082841200  # 1970-01-01 in seconds since 1904, in UTC-1 (as FontLab stores it)
EPOCH = datetime(1970, 1, 1, tzinfo=UTC)
LAST = 2**32 - 1 - ZERO


def cases(tier):
    q = tier == "quick"
    days = LAST // 86400
    for lo in range(0, days + 1, 2000):
        yield "days", [lo, min(lo + 2000, days + 1), 4 if q else 40]
    yield "edges", 4000 if q else 40000
    yield "zones", None
    yield "bits", 12 if q else 16
    for n in range(0, 5 if q else 6):
        for first in range(len(LINES) if n else 1):
            yield "features", [n, first]
    for sign in ("h", "v"):
        yield "adobe", [sign, 2 if q else 3]


def signed(v):
    return v - 2**32 if v >= 2**31 else v


def one(sec, out):
    from vfbLib.ufo.time import convert_timestamp, datetime_to_fl

    d = EPOCH + timedelta(seconds=sec)
    v = signed(sec + ZERO)
    got = convert_timestamp(v)
    if got != d or got.utcoffset() != timedelta(0):
        out.fail("time/read", f"{v} is {got}, expected {d}")
    back = datetime_to_fl(d)
    if back != v:
        out.fail("time/write", f"{d} is {back}, expected {v}")
    out.state(f"t{sec}")
    out.trans(2)


def run_days(payload, out):
    lo, hi, n = payload
    for day in range(lo, hi):
        for k in range(n):
            sec = day * 86400 + (86399 * k) // max(n - 1, 1)
            if sec <= LAST:
                one(sec, out)
    out.trace(hi - lo)


def run_edges(n, out):
    from vfbLib.ufo.time import convert_timestamp, datetime_to_fl

    for mid in (0, 2**31 - ZERO, LAST):
        for sec in range(mid - n, mid + n):
            if 0 <= sec <= LAST:
                one(sec, out)
    # what is earlier than 1970 is 1970
    for v in list(range(0, n)) + list(range(ZERO - n, ZERO + 1)):
        if convert_timestamp(v) != EPOCH:
            out.fail("time/early", f"{v} is {convert_timestamp(v)}")
        out.trans()
    for days in range(0, 25000, 13):
        if datetime_to_fl(EPOCH - timedelta(days=days)) != ZERO:
            out.fail("time/early", f"{EPOCH - timedelta(days=days)}")
        out.trans()
    out.trace()


def run_zones(_, out):
    from vfbLib.ufo.time import convert_timestamp, datetime_to_fl

    secs = [0, 1, 86399, 2**31 - ZERO - 1, 2**31 - ZERO, 951782400, 1220461200, LAST]
    for h in [x / 2 for x in range(-24, 29, 3)]:
        for s in secs:
            d = (EPOCH + timedelta(seconds=s)).astimezone(timezone(timedelta(hours=h)))
            if convert_timestamp(datetime_to_fl(d)) != d:
                out.fail("time/zone", f"{d}: {datetime_to_fl(d)}")
            out.state(f"z{h}{s}")
            out.trans()
    # ... and of the computer's own time zone
    want = [str(EPOCH + timedelta(seconds=s)) for s in secs]
    for tz in ("UTC", "Europe/Berlin", "America/New_York", "XXX-13:45"):
        code = (
            "import sys; sys.path[:0] = %r\nfrom vfbLib.ufo.time import convert_timestamp, datetime_to_fl\n"
            "print([str(convert_timestamp(v)) for v in %r])" % (sys.path[:3], [signed(s + ZERO) for s in secs])
        )
        r = subprocess.run([sys.executable, "-B", "-c", code], env={"TZ": tz, "PATH": "/usr/bin:/bin"}, capture_output=True, text=True)
        if r.stdout.strip() != str(want):
            out.fail("time/local", f"{tz}: {r.stdout} {short(r.stderr)}")
        out.trans()
    out.trace()


def run_bits(n, out):
    from vfbLib.helpers import binaryToIntList, intListToBinary

    def check(v, start=0):
        bits = [i for i in range(160) if v >> i & 1]
        got = binaryToIntList(v, start)
        if got != [b + start for b in bits]:
            out.fail("bits/list", f"{v} from {start}: {got}")
        if intListToBinary(bits) != v or intListToBinary(list(reversed(bits))) != v:
            out.fail("bits/value", f"{bits}: {intListToBinary(bits)}")
        out.state(f"b{v} {start}")
        out.trans(2)

    for v in range(2**n):
        check(v)
    for a, b, c in product(range(33), repeat=3):
        if a <= b <= c:
            for start in (0, 1, 32):
                check(1 << a | 1 << b | 1 << c, start)
    # a bit which is listed repeatedly is one bit
    for k in range(5):
        for t in product((0, 1, 2, 7, 31), repeat=k):
            v = 0
            for b in t:
                v |= 1 << b
            if intListToBinary(list(t)) != v or intListToBinary(iter(t)) != v:
                out.fail("bits/repeated", f"{t}: {intListToBinary(list(t))}, not {v}")
            out.state(f"br{t}")
            out.trans(2)
    # up to the 128 bits of the Unicode ranges, and beyond
    for a, b in product(range(130), repeat=2):
        check(1 << a | 1 << b)
    for a in range(130):
        check((1 << a) - 1)
        check((1 << 128) - (1 << min(a, 128)))
    out.trace()


POS = [0, -1, 1000, -32768, 700]
WID = [0, 1, -1, 50, -20, -21, -22, -19, 20, 21, -1000]


def norm(p, w):
    """The edge at the lower end and the width; widths of -20 and -21 stand for ghost hints"""
    return (p, w) if w >= 0 or w in (-20, -21) else (p + w, -w)


def run_adobe(payload, out):
    from vfbLib.ufo.pshints import normalize_hint, normalize_hint_dict, update_adobe_hinting

    d, size = payload
    tag = f"{d}stem"
    for p, w in product(POS + list(range(-30, 31)), WID + list(range(-30, 31))):
        want = (tag, *norm(p, w))
        if tuple(normalize_hint((tag, p, w))) != want or tuple(normalize_hint_dict({"pos": p, "width": w}, tag)) != want:
            out.fail("hints/normalize", f"{p} {w}: {normalize_hint((tag, p, w))}")
        out.trans()
    stems = [(t, p, w) for t in ("hstem", "vstem") for p, w in zip(POS * 3, WID)]
    sets = [()] + [(s,) for s in stems]
    for n in range(2, size + 1):
        sets += list(product(stems[: 22 if n == 2 else 8], repeat=n))
    short_sets = [s for s in sets if len(s) < 2]
    docs = [[s] for s in sets] + [[a, b] for a in short_sets for b in short_sets] + [[]]
    if d == "v":
        docs = [[s, short_sets[i % len(short_sets)]] for i, s in enumerate(sets)]
    for doc in docs:
        xml = "<hintSetList>\n" + "".join(
            f'  <hintset pointTag="hr{i:02d}">\n' + "".join(f'    <{t} pos="{p}" width="{w}" />\n' for t, p, w in s) + "  </hintset>\n"
            for i, s in enumerate(doc)
        ) + "</hintSetList>"
        want = [{"pointTag": f"hr{i:02d}", "stems": ["%s %d %d" % (t, *norm(p, w)) for t, p, w in s]} for i, s in enumerate(doc)]
        want = {"hintSetList": want} if want else {}
        for data in (xml, xml.encode()):
            got = update_adobe_hinting(data)
            if got != want:
                out.fail("hints/update", f"{short(xml)}: {short(got)}")
            out.trans()
        if update_adobe_hinting(want) != want:
            out.fail("hints/v2", f"{short(want)}")
        out.state(xml)
        out.trace()


LINES = [
    "", "# comment", "languagesystem DFLT dflt;", "feature liga {", "  feature  ss01  {  # x", "} liga;", "  sub a by b;", "# feature kern {",
    "} ss01; feature kern { sub a by b;", "# feature liga { # old", "feature ss02 { # a # b", "feature kern;", "table OS/2 {", "@a = [b]; # feature", "feature aalt { feature salt; } aalt;",
]  # fmt: skip
TAGS = {"feature ss02 { # a # b": "ss02", "feature liga {": "liga", "} ss01; feature kern { sub a by b;": "kern", "  feature  ss01  {  # x": "ss01", "feature aalt { feature salt; } aalt;": "aalt"}


def run_features(payload, out):
    """Feature code split into its features has every line once, in order"""
    from vfbLib.parsers.text import OpenTypeStringParser

    n, first = payload
    for lines in product(LINES, repeat=n):
        if n and lines[0] != LINES[first]:
            continue
        starts = [i for i, x in enumerate(lines) if x in TAGS]
        ends = starts[1:] + [n]
        want = {
            "prefix": list(lines[: starts[0]] if starts else lines),
            "features": [{"tag": TAGS[lines[a]], "code": list(lines[a:b])} for a, b in zip(starts, ends)],
        }
        data = list(lines)
        got = OpenTypeStringParser.build_fea_dict(data)
        if dict(got) != want or data != list(lines):
            out.fail("features/split", f"{lines}: {got}")
        out.state("f" + "|".join(lines))
        out.trans()
    out.trace()


KINDS = {k[4:]: v for k, v in list(globals().items()) if k.startswith("run_")}
