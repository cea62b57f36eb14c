"""yuri: encodes and decodes values on the command line."""
from itertools import product

from mc import cli
from mc import ref as R

PID = "C36"
RULE = (
    "every value of the short forms and boundary values of the long form, all sequences of boundary values, every byte pair and cut as input, "
    "with all combinations of the options; a state is a command line"
)
BOUNDS = {
    "quick": "values -1200..1200 and 2^k+-2, sequences of 2 of 21 values, all 1 byte inputs, 16 x 256 2 byte inputs",
    "thorough": "values -5000..5000, sequences of 3, all 2 byte inputs",
}
CHUNK = 1
CASE_LIMIT = 300
DOM = [0, 1, -1, 107, 108, -107, -108, 363, 364, 1131, 1132, -1131, -1132, 65535, -65536, 2**31 - 1, -(2**31), 2**31, 2**32 - 1, 2**32, -(2**31) - 1]


def cases(tier):
    n = 1200 if tier == "quick" else 5000
    for lo in range(-n, n + 1, 300):
        yield "values", [lo, min(lo + 300, n + 1)]
    yield "powers", None
    for signed, long in product((False, True), repeat=2):
        yield "lists", [2 if tier == "quick" else 3, signed, long]
    for a in range(0, 256):
        yield "bytes", [a, tier != "quick" or a in (0, 1, 0x1F, 0x20, 0x21, 0x8B, 0xF6, 0xF7, 0xF8, 0xFA, 0xFB, 0xFC, 0xFD, 0xFE, 0xFF, 0x7F)]
    yield "errors", None


def fits(v, signed, long):
    if not long and -1131 <= v <= 1131:
        return True
    return -(2**31) <= v < 2**31 if signed else 0 <= v < 2**32


def enc(v, long):
    if not long and -1131 <= v <= 1131:
        return R.num(v)
    return b"\xff" + (v & 0xFFFFFFFF).to_bytes(4, "big")


def encode(vals, signed, long, out):
    args = ["-e", *(["-s"] if signed else []), *(["-l"] if long else [])]
    code, text = cli.run("yuri", *args, "--", *vals)
    out.state(f"{args} {vals}")
    out.trans()
    if not all(fits(v, signed, long) for v in vals):
        if not code or text:
            out.fail("encode/range", f"{args} {vals}: {code} {text!r}")
        return
    want = b"".join(enc(v, long) for v in vals).hex()
    if code or text != want + "\n":
        out.fail("encode/value", f"{args} {vals}: {text!r} ({code}), expected {want}")
        return
    # and back, as one argument or one per byte, in upper case
    for a in ([want], [want[i : i + 2] for i in range(0, len(want), 2)], [want.upper()], [want[:2], want[2:]], [want[:-4], want[-4:]]):
        if "" in a:
            continue
        code, text = cli.run("yuri", *(["-s"] if signed else []), *a)
        if code or text != "".join(f"{v}\n" for v in vals):
            out.fail("decode/value", f"{a}: {text!r} ({code}), expected {vals}")
        out.trans()


def run_values(payload, out):
    for v in range(*payload):
        for signed, long in product((False, True), repeat=2):
            encode([v], signed, long, out)
    out.trace(payload[1] - payload[0])


def run_powers(_, out):
    for k in range(0, 34):
        for d in (-2, -1, 0, 1, 2):
            for sg in (1, -1):
                for signed, long in product((False, True), repeat=2):
                    encode([sg * (2**k + d)], signed, long, out)
    out.trace()


def run_lists(payload, out):
    n, signed, long = payload
    for vals in product(DOM, repeat=n):
        encode(list(vals), signed, long, out)
        out.trace()


def reference(data, signed):
    """(values, whether the input is damaged)"""
    vals, pos = [], 0
    while pos < len(data):
        b = data[pos]
        if b == 0:
            return vals, False
        if b < 0x20:
            return vals, True
        n = 1 if b < 0xF7 else 2 if b < 0xFF else 5
        if pos + n > len(data):
            return vals, True
        if n == 1:
            v = b - 139
        elif b <= 0xFA:
            v = (b - 247) * 256 + data[pos + 1] + 108
        elif n == 2:
            v = -(b - 251) * 256 - data[pos + 1] - 108
        else:
            v = int.from_bytes(data[pos + 1 : pos + 5], "big", signed=signed)
        vals.append(v)
        pos += n
    return vals, False


def decode(data, signed, out):
    code, text = cli.run("yuri", *(["-s"] if signed else []), data.hex())
    want, damaged = reference(data, signed)
    if bool(code) != damaged or text != "".join(f"{v}\n" for v in want):
        out.fail("decode/bytes", f"{data.hex()}: {text!r} ({code}), expected {want} and {'an' if damaged else 'no'} error")
    out.state(data.hex() + str(signed))
    out.trans()


def run_bytes(payload, out):
    a, two = payload
    decode(bytes([a]), False, out)
    decode(bytes([a]), True, out)
    for tail in ("8b", "80000000", "ffffffff", "7fffffff8c", "00", "008c", "8b1f8c"):
        for signed in (False, True):
            for cut in range(0, len(tail) + 1, 2):
                decode(bytes([a]) + bytes.fromhex(tail[:cut]), signed, out)
    if two:
        for b in range(256):
            decode(bytes([a, b]), False, out)
            decode(bytes([a, b, 0x8C]), True, out)
    out.trace()


def run_errors(_, out):
    for args in (["8"], ["8x"], ["-e", "x"], ["-e", "1.5"], ["-e", ""], []):
        code, text = cli.run("yuri", *args)
        if not code or text:
            out.fail("errors/silent", f"{args}: {code} {text!r}")
        out.state(str(args))
    out.trace()


KINDS = {"values": run_values, "powers": run_powers, "lists": run_lists, "bytes": run_bytes, "errors": run_errors}
