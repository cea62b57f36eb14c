"""Integer code: exhaustive over all encodings and a dense range of values, and
over all short sequences and cut-off streams."""
from io import BytesIO
from itertools import product

from mc import ref as R

PID = "C01"
RULE = (
    "every value of the short forms and their neighbourhood, every byte pair as a "
    "prefix, all sequences of boundary values, every cut; a state is an encoded "
    "sequence or a value"
)
BOUNDS = {
    "quick": "values -70000..70000 and 2^k+-3; all 1 and 2 byte prefixes; sequences of 3 of 31 values",
    "thorough": "values -2000000..2000000; sequences of 4 of 31 values",
}
BASE = [0, 1, 106, 107, 108, 109, 363, 364, 619, 620, 875, 876, 1130, 1131, 1132, 65536,
        2**31 - 1]  # fmt: skip
DOM = sorted(set(BASE + [-x for x in BASE] + [-(2**31)]))
CHUNK = 2


def api():
    from vfbLib.compilers.value import write_value, write_value_long
    from vfbLib.parsers.value import read_value

    return write_value, write_value_long, read_value


def value(payload, out):
    lo, hi, signed = payload
    wv, wl, rv = api()
    for v in range(lo, hi):
        b = BytesIO()
        wv(v, b, signed)
        got = b.getvalue()
        want = R.num(v) if signed or v < 1132 else b"\xff" + v.to_bytes(4, "big")
        if got != want:
            out.fail("value/encode", f"{v} (signed={signed}) -> {got.hex()}, expected {want.hex()}")
        s = BytesIO(got + b"\x8c")
        back = rv(s, signed)
        if back != v or s.tell() != len(want):
            out.fail("value/decode", f"{got.hex()} -> {back} after {s.tell()} bytes, expected {v}")
        b = BytesIO()
        wl(v, b, signed)
        if b.getvalue() != b"\xff" + (v & 0xFFFFFFFF).to_bytes(4, "big"):
            out.fail("value/long", f"{v} -> {b.getvalue().hex()}")
        if rv(b if not b.seek(0) else b, signed) != v:
            out.fail("value/long-decode", f"{v}")
        out.trans(4)
    out.states.update(
        x.to_bytes(8, "big", signed=True) for x in range(lo, hi)
    )
    out.trace(hi - lo)


def prefix(payload, out):
    """All encodings that begin with byte a, with every second byte and every
    cut: the decoder accepts exactly the complete ones, consumes exactly their
    bytes, and gives the value of the format."""
    (a,) = payload
    wv, wl, rv = api()
    for b in range(256):
        for tail in (b"", b"\x00\x00\x00", b"\xff\x80\x01", b"\x00\x00\x00\x00"):
            data = bytes([a, b]) + tail
            for n in range(0, len(data) + 1):
                d = data[:n]
                for signed in (True, False):
                    want = R.unnum(d, 0, signed)
                    s = BytesIO(d)
                    try:
                        got = (rv(s, signed), s.tell())
                    except (EOFError, ValueError) as x:
                        got = None
                        # The end of a list of values is told from damage
                        end = not d[:1].strip(b"\0")
                        if isinstance(x, EOFError) != end:
                            out.fail("prefix/end", f"{d.hex()} (signed={signed}): {type(x).__name__}")
                    out.trans()
                    if got != want:
                        out.fail(
                            "prefix/decode",
                            f"{d.hex()} (signed={signed}): {got}, expected {want} "
                            "(None: not a complete value)",
                        )
                out.state(d)
    out.trace(256)


def sequence(payload, out):
    first, n = payload
    wv, wl, rv = api()
    for rest in product(DOM, repeat=n - 1):
        vals = [first, *rest]
        b = BytesIO()
        for v in vals:
            wv(v, b)
        data = b.getvalue()
        want = R.nums(vals)
        if data != want:
            out.fail("sequence/encode", f"{vals} -> {data.hex()}")
        s = BytesIO(data)
        got = [rv(s) for _ in vals]
        if got != vals or s.read():
            out.fail("sequence/decode", f"{data.hex()} -> {got}")
        try:
            rv(s)
            out.fail("sequence/end", f"a value was read after the end of {data.hex()}")
        except (EOFError, ValueError):
            pass
        out.state(data)
        out.trans(2 * n)
    out.trace(len(DOM) ** (n - 1))


def outside(payload, out):
    """Values that do not fit are refused and never written as something else."""
    (v, signed) = payload
    wv, wl, rv = api()
    for fn in (wv, wl):
        b = BytesIO()
        try:
            fn(v, b, signed)
        except Exception:
            if b.getvalue():
                out.fail("outside/partial", f"{v}: {b.getvalue().hex()}")
        else:
            out.fail("outside/accepted", f"{v} (signed={signed}): {b.getvalue().hex()}")
        out.trans()
    out.state(repr(payload))


def cli(payload, out):
    """The command line encoder/decoder."""
    import contextlib
    import io
    import sys

    from vfbLib.value import yuri

    def run(*args):
        o = io.StringIO()
        old = sys.argv
        sys.argv = ["yuri", *args]
        try:
            with contextlib.redirect_stdout(o):
                yuri()
        finally:
            sys.argv = old
        return o.getvalue()

    for v in payload:
        h = R.num(v).hex()
        if v >= 0:
            got = run("-e", "-s", str(v)).replace(" ", "").strip()
            if got != h:
                out.fail("cli/encode", f"{v}: {got}, expected {h}")
        got = run("-s", h, R.num(5).hex()).split()
        if got != [str(v), "5"]:
            out.fail("cli/decode", f"{h}: {got}, expected {v}, 5")
        out.state(h)
        out.trans(2)
        out.trace()


KINDS = dict(value=value, prefix=prefix, sequence=sequence, outside=outside, cli=cli)


def cases(tier):
    top = 2_000_000 if tier == "thorough" else 70_000
    for lo in range(-top, top, 2000):
        yield "value", [lo, lo + 2000, True]
    for lo in range(0, top, 2000):
        yield "value", [lo, lo + 2000, False]
    for k in range(8, 32):
        m = 1 << k
        if k < 31:
            yield "value", [m - 3, m + 3, True]
            yield "value", [-m - 3, -m + 3, True]
        yield "value", [m - 3, m + 3, False]
    yield "value", [2**31 - 6, 2**31, True]
    yield "value", [-(2**31), -(2**31) + 6, True]
    yield "value", [2**32 - 6, 2**32, False]
    for a in range(256):
        yield "prefix", [a]
    for n in range(1, 5 if tier == "thorough" else 4):
        for a in DOM:
            yield "sequence", [a, n]
    for v in (2**31, 2**31 + 1, -(2**31) - 1, 2**32, 2**40, -(2**40)):
        yield "outside", [v, True]
    for v in (2**32, 2**33, -1132, -(2**31)):
        yield "outside", [v, False]
    for i in range(0, len(DOM), 8):
        yield "cli", DOM[i : i + 8]
