"""vfb2json: the JSON file has every record of the VFB with its contents."""
import json
from itertools import product

from mc import cli, codec
from mc import ref as R
from mc import ufo as U
from mc.core import DATA, samples, short
from mc.keys import KEYS

PID = "C29"
RULE = (
    "all record contents of the families of C06-C12, exported decoded, undecoded and after a round trip with the command line tool; "
    "all combinations of options, folders, file names, existing output and failing exports; a state is a record or a command line"
)
BOUNDS = {
    "quick": "every 3rd batch of the quick families with 4 exports each; 5 options in all combinations x 3 names x folder/no folder x existing output; all fixtures undecoded",
    "thorough": "all batches of the quick families, every 4th batch of the thorough families",
}
ASSUMPTIONS = ["contents that JSON cannot hold (lone surrogates) are only checked to be refused", "the effect of -m and -u is not specified"]
CHUNK = 4
CASE_LIMIT = 300
FAMS = ["C06", "C07", "C08", "C09", "C10", "C11", "C12"]


def cases(tier):
    yield "tiny", None
    i = 0
    for pid in FAMS:
        for _, p in codec.cases(pid, "quick", 128):
            if tier != "quick" or i % 3 == 0 or p[4] - p[3] < 128:
                yield "record", p
            i += 1
    if tier != "quick":
        for pid in FAMS:
            for i, (_, p) in enumerate(codec.cases(pid, "thorough", 128)):
                if i % 4 == 0:
                    yield "record", p
    for name in ("font", "two.parts", "sp ace"):
        for folder in (None, "sub", "sub/"):
            yield "options", [name, folder]
    yield "failing", None
    for name, _ in samples():
        yield "fixture", name


def plain(o):
    """The structure as JSON holds it"""
    if isinstance(o, dict):
        return {str(k): plain(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [plain(x) for x in o]
    return o


def ok_json(o):
    try:
        json.dumps(o, ensure_ascii=False).encode("utf-8")
        return True
    except UnicodeEncodeError:
        return False


def key(eid):
    return KEYS.get(eid, str(eid))


def entries_of(data):
    """[(id, payload)] of the records, by the framing"""
    pos = int.from_bytes(data[8:12], "little")
    res = []
    while pos < len(data):
        eid = int.from_bytes(data[pos : pos + 2], "little")
        w = 4 if eid & 0x8000 else 2
        eid &= 0x7FFF
        size = int.from_bytes(data[pos + 2 : pos + 2 + w], "little")
        pos += 2 + w
        res.append((eid, data[pos : pos + size]))
        pos += size
        if eid == R.END:
            break
    return res


HEAD = {"decompiled": {"signature": 0x464C571A, "app_version": 0x31, "file_version": 0x30, "version_major": 3, "version_minor": 0}}


def raw_view(data):
    return [{"key": key(i), "size": len(b), "decompiled": b.hex()} for i, b in entries_of(data)]


# These are interpreted while the file is read
EARLY = {"10", "1503", "1269"}
EARLY = {KEYS[int(k)] for k in EARLY}


def export(d, data, *args):
    src = d / "f.vfb"
    src.write_bytes(data)
    code, _ = cli.run("vfb2json", *args, src)
    res = d / "f.vfb.json"
    if code or not res.exists():
        return code or "no file", None
    b = res.read_bytes()
    res.unlink()
    if src.read_bytes() != data:
        return "the input file was changed", None
    return 0, json.loads(b)


def run_record(payload, out):
    pid, name, tier, lo, hi = payload
    groups = {}
    for k, it in enumerate(codec.items(pid, name, tier)[lo:hi]):
        groups.setdefault(it.ctx(), []).append((lo + k, it))
    with cli.scratch() as d:
        for group in groups.values():
            record_group(payload, group, d, out)


def record_group(payload, group, d, out):
    group = [(k, it) for k, it in group if ok_json(plain(it.view))]
    if not group:
        return
    first = group[0][1]
    data = R.vfb_file([(it.eid, it.data) for _, it in group], masters=first.masters, platform=first.platform, stems=first.stems)
    off = 3 if first.stems is not None else 2
    # the same records in another notation, which is not how they are written
    other = R.vfb_file([(it.eid, it.alts[0] if it.alts else it.data) for _, it in group], masters=first.masters, platform=first.platform, stems=first.stems)
    for args in ([], ["-r"], ["-d"], ["-r", "-d"]):
        code, js = export(d, other if len(args) > 1 else data, *args)
        what = " ".join(args) or "default"
        if code:
            if len(group) > 1:
                for g in group:
                    record_group(payload, [g], d, out)
                return
            k, it = group[0]
            out.fail(f"record/{it.eid}/error", f"{what}: {short(it.view)}: {code}", ("record", [*payload[:3], k, k + 1]))
            return
        if len(args) < 2:
            # (after a round trip, also the header is undecoded)
            out.eq(js.get("header"), HEAD, "header", what)
        es = js.get("entries", [])
        want_keys = [KEYS[10], KEYS[1503]] + ([KEYS[1269]] if off == 3 else []) + [key(it.eid) for _, it in group] + [key(2)]
        out.eq([e.get("key") for e in es], want_keys, "keys", what)
        if args == ["-d"]:
            for e, w in zip(es, raw_view(data)):
                if e["key"] not in EARLY:
                    out.eq(e, w, "undecoded", f"{what} {e['key']}")
        elif args == ["-r", "-d"]:
            for (k, it), e in zip(group, es[off:]):
                # the bytes after the round trip
                out.case = ("record", [*payload[:3], k, k + 1])
                out.eq(e, {"key": key(it.eid), "size": len(it.data), "decompiled": it.data.hex()}, "roundtrip", f"{what} {e['key']} {short(it.view)}")
                out.trans()
        else:
            for (k, it), e in zip(group, es[off:]):
                out.case = ("record", [*payload[:3], k, k + 1])
                out.state(b"%d/%d/" % (it.eid, it.masters) + it.data)
                out.eq(e.get("decompiled"), plain(it.view), f"content/{it.eid}", f"{what}: record {e.get('key')}")
                out.trans()
        out.trace()


def run_tiny(_, out):
    """Files of hardly any records, with and without the end marker"""
    recs = [(2, b""), (1026, b"Name"), (32766, b"\1\2"), (10, R.flversion()), (1503, R.u16(1)), (1026, b"")]
    with cli.scratch() as d:
        for k in range(4):
            for seq in product(range(len(recs)), repeat=k):
                if 0 in seq[:-1]:
                    continue
                data = R.header() + b"".join(R.entry(*recs[i]) for i in seq)
                what = f"records {[recs[i][0] for i in seq]}"
                out.state(what)
                for args in ([], ["-d"], ["-r"], ["-r", "-d"]):
                    code, js = export(d, data, *args)
                    if code:
                        out.fail("tiny/error", f"{what} {args}: {code}")
                        continue
                    es = js.get("entries")
                    out.eq([e.get("key") for e in es], [key(recs[i][0]) for i in seq], "tiny/keys", f"{what} {args}")
                    for i, e in zip(seq, es):
                        eid, b = recs[i]
                        if "-d" in args and e["key"] not in EARLY or eid in (2, 32766):
                            out.eq(e["decompiled"].replace(" ", ""), b.hex(), "tiny/bytes", f"{what} {args}")
                        elif eid == 1026:
                            out.eq(e["decompiled"], b.decode(), "tiny/text", f"{what} {args}")
                    out.trans()
        out.trace()


FLAGS = [("-d",), ("--header",), ("-r",), ("-u",)]


def run_options(payload, out):
    name, folder = payload
    font = U.font([codec.gl(name="A", nodes=U.contour(("line", "curve")))], before=[U.s(1026, "Name"), (1048, R.i16(-7))])
    want_raw = raw_view(font)
    for on in product((0, 1), repeat=len(FLAGS)):
        for exists in (False, True):
            flags = [x for f, o in zip(FLAGS, on) if o for x in f]
            with cli.scratch() as d:
                src = d / f"{name}.vfb"
                src.write_bytes(font)
                (d / "sub").mkdir()
                target = ("sub/" if folder else "") + f"{name}.vfb.json"
                if exists:
                    (d / target).write_bytes(b"x" * 100000)
                args = list(flags)
                if folder:
                    args += ["-p", f"{d}/{folder}"]
                what = f"{name} {flags} {folder} {exists}"
                out.state(what)
                before = cli.tree(d)
                code, _ = cli.run("vfb2json", *args, src)
                after = cli.tree(d)
                if code:
                    out.fail("options/error", f"{what}: {code}")
                    continue
                if [k for k in after if after[k] != before.get(k)] != [target] or set(before) - set(after):
                    out.fail("options/files", f"{what}: {sorted(after)}")
                    continue
                try:
                    js = json.loads(after[target])
                except ValueError as e:
                    out.fail("options/json", f"{what}: {e}")
                    continue
                if not (on[0] and on[2]):
                    # (after a round trip, also the header is undecoded)
                    out.eq(js["header"], HEAD, "options/header", what)
                if on[1]:
                    # Only the header
                    out.eq(js["entries"], [], "options/only-header", what)
                else:
                    out.eq([e["key"] for e in js["entries"]], [w["key"] for w in want_raw], "options/keys", what)
                    for e, w in zip(js["entries"], want_raw):
                        if on[0] and (not on[2] or e["key"] in ("Glyph", KEYS[1026])) and e["key"] not in EARLY:
                            out.eq(e, w, "options/undecoded", what)
                        if not on[0]:
                            if e["key"] == "Glyph" and not isinstance(e["decompiled"], dict):
                                out.fail("options/decoded", f"{what}: {short(e)}")
                            if e["key"] == KEYS[1026]:
                                out.eq(e["decompiled"], "Name", "options/decoded", what)
                            if e["key"] == KEYS[1048]:
                                out.eq(e["decompiled"], -7, "options/decoded", what)
                out.trans()
        out.trace()


def run_failing(_, out):
    """Exports that cannot be completed raise an error and leave the files that
    were there"""
    good = U.font([codec.gl(name="A")])
    bad = {
        "cut": good[:-9],
        "signature": b"X" + good[1:],
        "record": U.font([codec.gl(name="A")], before=[(1048, b"\x01")]),
        "glyph": U.font([], after=[(2001, b"\x01\x09\x07\x01\x08")]),
        # Lone surrogate in a name record: not representable in JSON
        "surrogate": U.font([], after=[(1138, R.num(1) + R.nums([1, 3, 1, 1033]) + R.num(1) + R.num(0xD800))]),
    }
    for name, data in bad.items():
        for exists in (False, True):
            for flags in ([], ["-r"]):
                with cli.scratch() as d:
                    src = d / "f.vfb"
                    src.write_bytes(data)
                    if exists:
                        (d / "f.vfb.json").write_text("{}")
                    before = cli.tree(d)
                    code, _ = cli.run("vfb2json", *flags, src)
                    out.state(f"{name} {exists} {flags}")
                    if not code:
                        out.fail("failing/silent", f"{name} {flags}: no error")
                    if cli.tree(d) != before:
                        out.fail("failing/files", f"{name} {flags}: after {code}: { {k: len(v) for k, v in cli.tree(d).items()} }")
                    out.trans()
    for exists in (False, True):
        with cli.scratch() as d:
            if exists:
                (d / "no.vfb.json").write_text("{}")
            before = cli.tree(d)
            code, _ = cli.run("vfb2json", d / "no.vfb")
            if not code or cli.tree(d) != before:
                out.fail("failing/missing", f"missing input: {code}")
            (d / "a.vfb").write_bytes(good)
            code, _ = cli.run("vfb2json", "-p", d / "nofolder", d / "a.vfb")
            if not code or (d / "nofolder").exists():
                out.fail("failing/folder", f"missing folder: {code}")
            out.trans(2)
    out.trace()


def run_fixture(name, out):
    data = (DATA / name).read_bytes()
    with cli.scratch() as d:
        code, js = export(d, data, "-d")
        if code:
            out.fail("fixture/error", f"{name}: {code}")
            return
        want = raw_view(data)
        out.eq(len(js["entries"]), len(want), "fixture/count", name)
        for i, (e, w) in enumerate(zip(js["entries"], want)):
            if e["key"] not in EARLY:
                out.eq(e, w, "fixture/undecoded", f"{name} {i}")
            out.state(f"{name}{i}")
            out.trans()
        code, dec = export(d, data)
        code2, rt = export(d, data, "-r")
        if code or code2:
            out.fail("fixture/error", f"{name}: {code} {code2}")
            return
        out.eq([e["key"] for e in dec["entries"]], [w["key"] for w in want], "fixture/keys", name)
        out.eq(rt, dec, "fixture/roundtrip", name)
        out.trace()


KINDS = {"tiny": run_tiny, "record": run_record, "options": run_options, "failing": run_failing, "fixture": run_fixture}
