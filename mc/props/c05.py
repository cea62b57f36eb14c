"""Edit and save histories: all operation sequences up to a depth on a Vfb with
a few records, against a model that holds (id, structure, form) per record."""
from copy import deepcopy
from io import BytesIO
from itertools import product

from mc import codec
from mc import ref as R
from mc.core import norm, short

PID = "C05"
RULE = (
    "all sequences of operations (decompile, compile, replace by structure, replace by "
    "bytes, change in place, add, remove, swap, save, save and reload, save twice) of the stated length; "
    "a state is a distinct model state (records, their values and forms)"
)
BOUNDS = {
    "quick": "3 initial files, all sequences of up to 3 of 28 operations, of 4 of 12 operations; records moved between fonts of both platforms; sequences of up to 4 additions of equal and identical records",
    "thorough": "all sequences of up to 4 of 28 operations, of 6 of 10 operations",
}
CHUNK = 1
CASE_LIMIT = 300


def g(**kw):
    return codec.gl(**kw)


def variants():
    """Per record ID: a cycle of (structure, bytes); payload sizes differ, one of
    them needs the long header."""
    big = "ab" * 0x8400
    n1 = codec.node
    glyphs = [
        g(name="A"),
        g(name="Bb", nodes=[n1("move", 0, [[(1, 2)]]), n1("line", 0, [[(300, -5)]])]),
        g(name="ccc", metrics=[(108, 0)], kerning={3: [-20]}),
    ]
    return {
        1026: [(s, R.untext(s)) for s in ("Name", "", "\u00e4 longer name")],
        1118: [
            (list(v), bytes(v))
            for v in ((2, 11, 6, 4, 2, 2, 2, 2, 2, 4), (0,) * 10, (1,) * 9 + (9,))
        ],
        2001: [(R.glyph_view(x) if x.get("name") else {k: w for k, w in R.glyph_view(x).items() if k != "name"}, R.glyph(x)) for x in glyphs],
        1262: [(s, bytes.fromhex(s)) for s in ("", "0102", big)],
        1273: [
            ({}, R.num(0)),
            ({0: {10: 8}}, R.num(1) + R.nums([0, 10, 8])),
            ({0: {10: -8, 12: 1}}, R.num(2) + R.nums([0, 10, -8, 0, 12, 1])),
        ],
    }


VAR = variants()
FILES = [(1026, 2001, 1262), (1118, 1273, 2001), (2001, 2001, 1026)]


def mutate(eid, d):
    """Change a structure in place, and the model structure equally."""
    if eid == 1118:
        d[3] = (d[3] + 1) % 100
    elif eid == 2001:
        d["metrics"][0] = (d["metrics"][0][0] + 1000, 7)
        if d["nodes"]:
            d["nodes"][0]["points"][0][0] = (5000, 1)
    elif eid == 1273:
        d.setdefault(4, {})[len(d.get(4, {}))] = 1
    else:
        return None
    return d


def encode(eid, d):
    if eid == 2001:
        return R.glyph(d)
    if eid == 1118:
        return bytes(d)
    if eid == 1273:
        lst = [(z, p, s) for z, ps in d.items() for p, s in ps.items()]
        return R.num(len(lst)) + b"".join(R.nums(x) for x in sorted(lst))
    if eid == 1262:
        return bytes.fromhex(d)
    return R.untext(d)


class Model:
    def __init__(self, eids):
        #  [id, structure, form, next variant]
        self.recs = [[e, deepcopy(VAR[e][0][0]), "raw", 1] for e in eids]

    def bytes(self):
        return R.vfb_file([(e, encode(e, d)) for e, d, *_ in self.recs])

    def key(self):
        return repr([(r[0], r[2], r[1]) for r in self.recs])


PER = ["dec", "comp", "set", "raw", "mut", "head"]
GLOBAL = ["decall", "compall", "add", "addraw", "remove", "swap", "save", "reload", "twice", "keys"]
OPS = [(o, i) for i in range(3) for o in PER] + [(o, -1) for o in GLOBAL]
SUB = [("dec", 1), ("comp", 1), ("set", 1), ("raw", 1), ("mut", 1), ("head", 1), ("mut", 0), ("dec", 0),
       ("save", -1), ("reload", -1), ("decall", -1), ("set", 0)]  # fmt: skip
SUB6 = SUB[:6] + SUB[8:12]
OPSETS = {"all": OPS, "sub": SUB, "sub6": SUB6}


class Stop(Exception):
    pass


def step(op, i, model, vfb, bad):
    from vfbLib.vfb.entry import VfbEntry

    off = 2
    recs = model.recs
    if i >= len(recs):
        return
    e = vfb.entries[off + i] if i >= 0 else None
    r = recs[i] if i >= 0 else None
    if op == "dec":
        e.decompile()
        r[2] = "struct"
    elif op == "comp":
        e.compile()
        r[2] = "raw"
    elif op in ("set", "raw"):
        d, b = VAR[r[0]][r[3] % 3]
        e.data = deepcopy(d) if op == "set" else b
        r[1], r[2] = deepcopy(d), "struct" if op == "set" else "raw"
        r[3] += 1
    elif op == "mut":
        if r[2] == "struct":
            mutate(r[0], e.data)
            mutate(r[0], r[1])
    elif op == "head":
        if r[2] == "raw":
            b = encode(r[0], r[1])
            if e.size != len(b) or e.header != R.entry(r[0], b)[: 6 if len(b) > 0xFFFF else 4]:
                bad("header", f"record {r[0]} of {len(b)} bytes has size {e.size}, header {e.header.hex()}")
    elif op == "decall":
        vfb.decompile()
        for x in recs:
            x[2] = "struct"
    elif op == "compall":
        vfb.compile()
        for x in recs:
            x[2] = "raw"
    elif op in ("add", "addraw"):
        eid = (1118, 1026)[len(recs) % 2]
        d, b = VAR[eid][1]
        n = VfbEntry(vfb, eid=eid)
        n.data = deepcopy(d) if op == "add" else b
        end = vfb.entries.pop()
        vfb.add_entry(n)
        vfb.entries.append(end)
        recs.append([eid, deepcopy(d), "struct" if op == "add" else "raw", 2])
    elif op == "remove":
        if recs:
            del vfb.entries[off]
            del recs[0]
    elif op == "swap":
        if len(recs) > 1:
            es = vfb.entries
            es[off], es[off + 1] = es[off + 1], es[off]
            recs[0], recs[1] = recs[1], recs[0]
    elif op == "keys":
        list(vfb.keys())
        # Listing the glyphs may decompile them or use what it knows already
        for x, y in zip(recs, vfb.entries[off:]):
            if x[0] == 2001:
                x[2] = "raw" if isinstance(y.data, bytes) else "struct"
    elif op in ("save", "reload", "twice"):
        b = BytesIO()
        vfb.write_bytes(b)
        if b.getvalue() != model.bytes():
            bad("saved", "the saved bytes differ from the model")
        if op == "twice":
            b2 = BytesIO()
            vfb.write_bytes(b2)
            if b2.getvalue() != b.getvalue():
                bad("second-save", "saving again without a change gives other bytes")
        for x in recs:
            x[2] = "raw"
        if op == "reload":
            b.seek(0)
            vfb.read_bytes(b)


def check(model, vfb, bad):
    if len(vfb.entries) != len(model.recs) + 3:
        bad("entries", f"{len(vfb.entries)} entries")
        return
    for r, e in zip(model.recs, vfb.entries[2:-1]):
        if e.id != r[0]:
            bad("order", f"record {e.id} found where {r[0]} was expected")
            return
        want = r[1] if r[2] == "struct" else encode(r[0], r[1])
        if norm(e.data) != norm(want):
            bad(f"value-{r[2]}", f"record {r[0]}: {short(e.data, 200)}, expected {short(want, 200)}")
            return


def run(payload, out):
    f, opset, prefix, depth = payload
    ops = OPSETS[opset]
    for rest in product(range(len(ops)), repeat=depth - len(prefix)):
        seq = [*prefix, *rest]
        one(f, opset, seq, out)


def one(f, opset, seq, out):
    from vfbLib.vfb.vfb import Vfb

    ops = OPSETS[opset]
    model = Model(FILES[f])
    vfb = Vfb(timing=False)
    vfb.read_bytes(BytesIO(model.bytes()))
    hist = [f"{ops[k][0]}{'' if ops[k][1] < 0 else ops[k][1]}" for k in seq]

    failed = []

    def bad(what, detail):
        failed.append(what)
        out.fail(f"history/{what}", f"records {FILES[f]}, history {' '.join(hist)}: {detail}",
                 ("seq", [f, opset, seq]))  # fmt: skip

    try:
        for n, k in enumerate(seq):
            step(*ops[k], model, vfb, bad)
            out.trans()
            if n == len(seq) - 1:
                check(model, vfb, bad)
            if failed:
                return
            out.state(model.key())
        w = BytesIO()
        vfb.write_bytes(w)
        if w.getvalue() != model.bytes():
            bad("final-save", "the bytes saved at the end differ from the model")
    except Exception as e:
        bad(f"raised-{type(e).__name__}", f"{type(e).__name__}: {e}")
    out.trace()


def seq(payload, out):
    one(*payload, out)


def moved(payload, out):
    """Records that are taken from one font and added to another one"""
    src, dst, when, where = payload
    from vfbLib.vfb.entry import VfbEntry
    from vfbLib.vfb.vfb import Vfb

    pixels = [1, 2, 3, 4]

    def content(pf):
        t = b"N\xe4me \x80"
        return [(1026, t), (2017, t), (1276, t + b"\n"), (1277, t), (2007, codec.image(pixels, 16, 2, pf)[1]),
                (2013, R.num(1) + codec.gbitmap(pixels, 16, 2, pf)[1]), (1118, bytes(range(10)))]  # fmt: skip

    fonts = {}
    for name, pf in (("a", src), ("b", dst)):
        v = fonts[name] = Vfb(timing=False)
        v.read_bytes(BytesIO(R.vfb_file(content(pf) if name == "a" else [], platform=pf)))
    a, b = fonts["a"], fonts["b"]
    entries = a.entries[2:-1]
    if when == "before":
        for e in entries:
            e.decompile()
    end = b.entries.pop()
    for e in entries:
        a.entries.remove(e)
        if where == "new":
            n = VfbEntry(a, eid=e.id)
            n.data = e.data
            e = n
        b.add_entry(e)
        out.trans()
    b.entries.append(end)
    if any(e.vfb is not b for e in b.entries):
        out.fail("moved/parent", f"{payload}: an added record belongs to another font")
    want = content(dst if when == "before" else src)
    w = BytesIO()
    b.write_bytes(w)
    if w.getvalue() != R.vfb_file(want, platform=dst):
        got = [(e.id, e.data) for e in b.entries[2:-1]]
        bad = [(x, y) for x, y in zip(got, want) if x != y]
        out.fail("moved/saved", f"{payload}: saved {short(bad[0][0] if bad else got)}, expected {short(bad[0][1] if bad else want)}")
    if src == dst or when == "before":
        for e, (eid, data) in zip(b.entries[2:-1], want):
            e.decompile()
            it = e.data
            if eid in (2007, 2013):
                bm = it["bitmap"] if eid == 2007 else it[0]["bitmap"]
                if [x for row in bm["data"] for x in row] != pixels:
                    out.fail("moved/read", f"{payload}: record {eid} reads {short(it)}")
            elif eid == 1026 and it != R.text(data):
                out.fail("moved/read", f"{payload}: record {eid} reads {short(it)}")
    w = BytesIO()
    a.write_bytes(w)
    if w.getvalue() != R.vfb_file([], platform=src):
        out.fail("moved/left", f"{payload}: the font from which the records were taken")
    out.state(repr(payload))
    out.trace()


def odd(payload, out):
    """Records without data, and one record object in several places of the list"""
    from vfbLib.vfb.entry import VfbEntry
    from vfbLib.vfb.vfb import Vfb

    ops, how = payload
    v = Vfb(timing=False)
    v.read_bytes(BytesIO(R.vfb_file([(1026, b"Name"), (1118, bytes(10))])))
    want = [(1026, b"Name"), (1118, bytes(10))]
    end = v.entries.pop()
    for op in ops:
        if op == "empty":
            n = VfbEntry(v, eid=1262)
            n.data = b""
            v.add_entry(n)
            want.append((1262, b""))
        elif op == "twice":
            v.add_entry(v.entries[2])
            want.append(want[0])
        elif op == "equal":
            n = VfbEntry(v, eid=1118)
            n.data = bytes(10)
            v.add_entry(n)
            want.append((1118, bytes(10)))
        elif op == "edit":
            v.entries[2].data = v.entries[2].data + "x" if isinstance(v.entries[2].data, str) else b"Bytes"
            t = v.entries[2].data
            t = t.encode() if isinstance(t, str) else t
            want = [(i, t if i == 1026 else d) for i, d in want]
        elif op == "decode":
            v.entries[2].decompile()
        out.trans()
    if how == "end":
        v.entries.append(end)
    elif how == "newend":
        # an end marker without data
        v.add_entry(VfbEntry(v, eid=2))
    out.state(repr(payload))
    for n in range(2):
        w = BytesIO()
        v.write_bytes(w)
        exp = R.vfb_file(want)
        if how == "noend":
            exp = exp[: -len(R.entry(2, b""))]
        if w.getvalue() != exp:
            out.fail("odd", f"{payload}: save {n + 1} wrote the records {short([(e.id, e.data) for e in v.entries[2:]])}, expected {short(want)}")
            break
    out.trace()


KINDS = dict(run=run, seq=seq, moved=moved, odd=odd)


ODD = ["empty", "twice", "equal", "edit", "decode"]


def cases(tier):
    n = len(OPS)
    for x in product(("macos", "windows"), ("macos", "windows"), ("before", "after"), ("same", "new")):
        yield "moved", list(x)
    for k in range(1, 5 if tier == "quick" else 6):
        for ops in product(ODD, repeat=k):
            for how in ("end", "noend", "newend"):
                yield "odd", [list(ops), how]
    for f in range(len(FILES)):
        for a in range(n):
            yield "run", [f, "all", [a], 1]
            yield "run", [f, "all", [a], 2]
        for a in range(n):
            if tier == "quick":
                yield "run", [f, "all", [a], 3]
            else:
                for b in range(n):
                    yield "run", [f, "all", [a, b], 3]
                    yield "run", [f, "all", [a, b], 4]
        for a, b in product(range(len(SUB)), repeat=2):
            yield "run", [f, "sub", [a, b], 4]
        if tier == "thorough":
            for a, b, c in product(range(len(SUB6)), repeat=3):
                yield "run", [f, "sub6", [a, b, c], 6]
