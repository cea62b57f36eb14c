"""Independence: all interleavings of operation scripts on two objects, and all
sequences of files read by one object."""
from copy import deepcopy
from io import BytesIO
from itertools import combinations, product

from mc import codec
from mc import ref as R
from mc.core import DATA, first_diff, norm, short

PID = "C15"
RULE = (
    "all interleavings of two scripts on two objects for all ordered pairs of files; all "
    "sequences of files read into one object with every operation in between; a state is "
    "an interleaving prefix or a sequence"
)
BOUNDS = {
    "quick": "7 files (platforms, master counts, stem counts, glyph names differ); scripts of 6 steps (924 interleavings) for all ordered pairs; sequences of 3 files x 7 operations; all record contents of C06-C12 three times in two files, one copy changed before or after the others are decoded",
    "thorough": "sequences of 4 files, scripts of 7 steps (3432 interleavings)",
}
CHUNK = 1
CASE_LIMIT = 300


def mk(masters, platform, stems, name, extra=()):
    g = codec.gl(
        name=name,
        num_masters=masters,
        nodes=[codec.node("move", 0, [[(k, 5)] for k in range(masters)]),
               codec.node("line", 0, [[(100 + k, 6)] for k in range(masters)]),
               codec.node("curve", 0, [[(300, 300), (200 + k, 6), (300, 100)] for k in range(masters)])],
    )  # fmt: skip
    ents = [
        (1026, b"F\xe4\x81" + name.encode()),
        (2001, R.glyph(g)),
        (2008, R.num(0) + R.num(1) + R.nums([1, 2])),
        (2007, codec.image([1, 2], 16, 1, platform)[1]),
        (1294, R.guides({"h": [[(k, 10) for k in range(masters)]], "v": []}, masters)),
        (2028, R.nums([k for k in range(2 * (masters - 1))])),
        (1135, R.u16(1000 + masters)),
    ]
    if stems is not None:
        n = stems["ttStemsV"], stems["ttStemsH"]
        ents.append((1524, R.nums(list(range(len(n[0]) + len(n[1]))))))
    return R.vfb_file(ents + list(extra), masters=masters, platform=platform, stems=stems)


def st(v, h):
    return {
        "ttStemsV": [{"value": 80 + i, "name": f"v{i}", "round": {6: i}} for i in range(v)],
        "ttStemsH": [{"value": 70 + i, "name": f"h{i}", "round": {6: i}} for i in range(h)],
    }


FILES = [
    mk(1, "macos", st(1, 2), "A"),
    mk(1, "windows", st(2, 0), "A"),
    mk(4, "macos", None, "B"),
    mk(2, "windows", st(0, 3), "B", [(1093, R.u16(3))]),
    mk(1, "macos", None, "A", [(2010, R.u32(1 << 29))]),
    R.vfb_file([], masters=3),
    # rounding values of stems, but no stems
    mk(2, "macos", None, "C", [(1524, R.nums([9, 10, 11])), (1093, R.u16(5))]),
    # without the version record, which names the platform
    mk(1, "macos", None, "D").replace(R.entry(R.FLVERSION, R.flversion()), b""),
    # without the number of masters
    mk(1, "macos", None, "E").replace(R.entry(R.MASTERCOUNT, R.u16(1)), b""),
]


def view(v):
    """Everything that can be seen of an object."""
    opt = v.ps_hinting_options
    for x in v.get_masters():
        if x.ps_hinting_options is not opt:
            opt = "different"
    if opt is not None and opt != "different":
        opt = [any(e is opt for e in v.entries), deepcopy(opt.data)]
    return norm(
        dict(
            n=v.num_masters,
            platform=v.writer_platform,
            masters=len(v.get_masters()),
            order=list(v.glyph_order),
            master=v.master_index,
            lib=dict(v.lib),
            err=v.any_errors,
            hinting=opt,
            entries=[(e.id, deepcopy(e.data)) for e in v.entries],
        )
    )


class Runner:
    """One object and its script; logs what it sees at each step."""

    def __init__(self, f):
        from vfbLib.vfb.vfb import Vfb

        self.v = Vfb(timing=False)
        self.f = f
        self.log = []

    def step(self, op):
        v = self.v
        if op == "read":
            v.read_bytes(BytesIO(FILES[self.f]))
        elif op == "keys":
            self.log.append([(k, g.name) for k, g in v.items()])
            self.log.append(v.info.unitsPerEm)
            for _, g in v.items():
                self.log.append([e is None or [any(e is x for x in v.entries), deepcopy(e.data)] for e in (g.links_entry, g.ps_hinting_options)])
        elif op == "decompile":
            try:
                v.decompile()
            except Exception as e:
                self.log.append(type(e).__name__)
        elif op == "edit":
            for e in v.entries:
                if e.id == 2001:
                    e.decompile()
                    e.data["metrics"][0] = (1234, 5)
                    e.data["nodes"][0]["points"][0][0] = (77, 77)
                elif e.id == 1026:
                    e.data = "Edited\u20ac"
        elif op == "write":
            b = BytesIO()
            v.write_bytes(b)
            self.log.append(b.getvalue())
        elif op == "dict":
            self.log.append(deepcopy(v.as_dict()))
        elif op == "draw":
            from fontTools.pens.recordingPen import RecordingPointPen

            for k in v.keys():
                p = RecordingPointPen()
                try:
                    v[k].drawPoints(p)
                except Exception as e:
                    self.log.append(type(e).__name__)
                self.log.append(p.value)
        elif op == "settings":
            v.master_index = max(0, v.num_masters - 1)
            v.lib["used"] = "before"
        elif op == "cu2qu":
            from fontTools.cu2qu.ufo import font_to_quadratic

            try:
                self.log.append(font_to_quadratic(v, reverse_direction=True))
            except Exception as e:
                self.log.append(type(e).__name__)
        self.log.append(view(v))


SCRIPTS = {
    6: ["read", "keys", "decompile", "edit", "write", "draw"],
    7: ["read", "decompile", "dict", "edit", "keys", "write", "draw"],
}


def inter(payload, out):
    fa, fb, n = payload
    script = SCRIPTS[n]
    alone = {}
    for f in (fa, fb):
        r = Runner(f)
        for op in script:
            r.step(op)
        alone[f] = r.log
    for sel in combinations(range(2 * n), n):
        a, b = Runner(fa), Runner(fb)
        ia = ib = 0
        for t in range(2 * n):
            if t in sel:
                a.step(script[ia])
                ia += 1
            else:
                b.step(script[ib])
                ib += 1
            out.trans()
            out.state(f"{fa}{fb}/{t}/{ia}/{ib}/{[x for x in sel if x <= t]}")
        for r, f in ((a, fa), (b, fb)):
            if norm(r.log) != norm(alone[f]):
                p, x, y = first_diff(r.log, alone[f])
                out.fail("interleaving", f"files {fa}, {fb}, steps of the first object at {sel}: "
                         f"object with file {f} sees {short(x, 200)} at {p}, alone it sees {short(y, 200)}")  # fmt: skip
                return
        out.trace()


BETWEEN = ["none", "keys", "decompile", "edit", "write", "settings", "cu2qu"]


def reread(payload, out):
    seq = payload
    #  [file, op, file, op, ..., file]
    r = Runner(seq[0])
    r.step("read")
    for op, f in zip(seq[1::2], seq[2::2]):
        if op != "none":
            r.step(op)
        r.f = f
        r.step("read")
        out.trans()
    fresh = Runner(seq[-1])
    fresh.step("read")
    a, b = view(r.v), view(fresh.v)
    for op in ("keys", "draw", "decompile", "dict", "write", "cu2qu", "draw"):
        r.log, fresh.log = [], []
        r.step(op)
        fresh.step(op)
        if norm(r.log) != norm(fresh.log):
            p, x, y = first_diff(r.log, fresh.log)
            out.fail("reread", f"history {seq}: {op} gives at {p} {short(x, 200)}, a new object gives {short(y, 200)}")
            return
    if a != b:
        p, x, y = first_diff(a, b)
        out.fail("reread", f"history {seq}: at {p} {short(x, 200)}, a new object has {short(y, 200)}")
    out.state(repr(seq))
    out.trace()


def samples(payload, out):
    """The same with the sample files, read from disk, in all ordered pairs."""
    from vfbLib.vfb.vfb import Vfb

    a, b = payload
    v = Vfb(DATA / f"{a}.vfb", timing=False)
    v.decompile()
    list(v.keys())
    v.vfb_path = DATA / f"{b}.vfb"
    v.read()
    w = Vfb(DATA / f"{b}.vfb", timing=False)
    if view(v) != view(w):
        p, x, y = first_diff(view(v), view(w))
        out.fail("sample", f"{b}.vfb read after {a}.vfb: at {p} {short(x)}, read alone {short(y)}")
    v.decompile()
    w.decompile()
    if norm(v.as_dict()) != norm(w.as_dict()):
        out.fail("sample", f"{b}.vfb read and decompiled after {a}.vfb differs")
    out.state(repr(payload))
    out.trans(2)
    out.trace()


def spoil(x):
    """Change everything that can be changed in a structure."""
    if isinstance(x, dict):
        for y in x.values():
            spoil(y)
        x.clear()
        x["changed"] = 1
    elif isinstance(x, (list, tuple)):
        for y in x:
            spoil(y)
        if isinstance(x, list):
            x[:] = ["changed"]


def shared(payload, out):
    """Equal records, twice in one file and once in another: a change of one
    decoded record must not show in the others, whenever they are decoded."""
    pid, name, tier, lo, hi = payload
    groups = {}
    special = (R.MASTERCOUNT, R.FLVERSION, R.STEM_ID)
    for k, it in enumerate(codec.items(pid, name, tier)[lo:hi]):
        if it.eid not in special:
            groups.setdefault(it.ctx(), []).append((lo + k, it))
    for g in groups.values():
        kw = dict(masters=g[0][1].masters, platform=g[0][1].platform, stems=g[0][1].stems)
        one = R.vfb_file([(it.eid, it.data) for _, it in g for _ in "12"], **kw)
        two = R.vfb_file([(it.eid, it.data) for _, it in g], **kw)
        off = 3 if g[0][1].stems is not None else 2
        for late in (False, True):
            from vfbLib.vfb.vfb import Vfb

            fonts = []
            for data in (one, two):
                v = Vfb(timing=False)
                v.read_bytes(BytesIO(data))
                fonts.append(v)
            for j, (idx, it) in enumerate(g):
                out.state(b"%d/%d/" % (it.eid, it.masters) + it.data)
                out.case = ("shared", [pid, name, tier, idx, idx + 1])
                es = [fonts[0].entries[off + 2 * j], fonts[0].entries[off + 2 * j + 1], fonts[1].entries[off + j]]
                tag = f"shared/{name}/{it.eid}"
                es[0].decompile()
                if not late:
                    es[1].decompile()
                    es[2].decompile()
                spoil(es[0].data)
                for e, where in zip(es[1:], ("the same file", "another file")):
                    e.decompile()
                    if norm(e.data) != norm(it.view):
                        p, x, y = first_diff(norm(e.data), norm(it.view))
                        out.fail(tag, f"record {it.eid} {short(it.data.hex(), 200)}: a change to it shows in an equal record in {where}: at {p} {short(x)}, not {short(y)}")
                        break
                    e.compile()
                    if e.data != it.data:
                        out.fail(tag, f"record {it.eid} {short(it.data.hex(), 200)}: after a change to it, an equal record in {where} is compiled to {short(e.data)}")
                        break
                out.trans(3)
            out.trace()


KINDS = dict(shared=shared, inter=inter, reread=reread, samples=samples)


def cases(tier):
    n = 7 if tier == "thorough" else 6
    for fa, fb in product(range(len(FILES)), repeat=2):
        yield "inter", [fa, fb, n]
    idx = range(len(FILES))
    for a, b in product(idx, repeat=2):
        for o in BETWEEN:
            yield "reread", [a, o, b]
            for c in idx:
                for o2 in BETWEEN:
                    yield "reread", [a, o, b, o2, c]
                    if tier == "thorough":
                        for d in idx:
                            for o3 in BETWEEN:
                                yield "reread", [a, o, b, o2, c, o3, d]
    from mc.props.c03 import SMALL

    for a, b in product(SMALL, repeat=2):
        if tier == "thorough" or SMALL.index(a) % 4 == SMALL.index(b) % 4 or "mask" in a:
            yield "samples", [a, b]
    done = set()
    for pid, fams in codec.FAMILIES.items():
        for name, fn in fams.items():
            if fn not in done:
                done.add(fn)
                n = len(codec.items(pid, name, "quick"))
                for lo in range(0, n, 200):
                    yield "shared", [pid, name, "quick", lo, min(n, lo + 200)]
