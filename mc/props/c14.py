"""Failed saves: for every record at which compilation can fail, in every way,
the existing file stays as it is, and the object stays usable."""
from copy import deepcopy
from io import BytesIO
from itertools import combinations, product
from pathlib import Path

from mc import codec
from mc import ref as R
from mc.core import norm, short

PID = "C14"
RULE = (
    "every (record type, kind of unwritable value, position of the record, state of the "
    "target file); a state is one such fault; after the fault is removed the save must succeed"
)
BOUNDS = {
    "quick": "all record types with 4-7 faults each, 3 positions, 4 target states; every single field of the records set to edge values and beyond them",
    "thorough": "also all pairs of faulty records",
}
CHUNK = 8
LEVEL = "fault_enumeration"


class Boom:
    """A value that no writer can encode."""


def records():
    """One writable (eid, view, data) per record type."""
    res = {}
    for pid in ("C06", "C07", "C08", "C09", "C10", "C11", "C12"):
        for name in codec.FAMILIES[pid]:
            for it in codec.items(pid, name, "quick"):
                if it.masters == 1 and it.platform == "macos" and it.stems is None and it.data:
                    old = res.get(it.eid)
                    if it.eid in (10, 1503, 2):
                        continue
                    if old is None or (len(repr(it.view)), len(it.data)) > (len(repr(old[0])), len(old[1])) and len(it.data) < 300:
                        res[it.eid] = (it.view, it.data)
    return res


RECS = None


def recs():
    global RECS
    if RECS is None:
        RECS = records()
    return RECS


def paths(o, path=()):
    """Leaf paths of a structure."""
    if isinstance(o, dict):
        for k in o:
            yield from paths(o[k], path + (k,))
    elif isinstance(o, (list, tuple)):
        for i in range(len(o)):
            yield from paths(o[i], path + (i,))
    else:
        yield path


def thaw(o):
    if isinstance(o, dict):
        return {k: thaw(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [thaw(x) for x in o]
    return deepcopy(o)


def spoil(view, path, value):
    if not path:
        return value
    d = thaw(view)
    x = d
    for k in path[:-1]:
        x = x[k]
    x[path[-1]] = value
    return d


def at(o, path):
    for k in path:
        o = o[k]
    return o


# fields that are implied by the position, or that have several notations
DERIVED = ("preview", "on", "options", "stem", "angle", "generate_flex", "hint_replacement", "horizontal_3_stem", "vertical_3_stem")
BITS = (1744, 1093, 2010, 2021, 1264)


def faults(eid, view):
    """(name, value): the whole structure or one of its leaves is replaced.  For
    lists of bit numbers, the excessive number is a bit that does not exist."""
    big = 70000 if eid in BITS else 1 << 70
    yield "object", Boom()
    yield "float", 1.5
    ps = list(paths(view))
    step = max(1, len(ps) // 12)
    for p in ps[::step]:
        yield f"leaf {p}", spoil(view, p, Boom())
    for p in ps[:: max(1, len(ps) // 4)]:
        yield f"range {p}", spoil(view, p, big)
    texts = [p for p in ps if isinstance(at(view, p), str) and at(view, p) and "preview" not in p]
    for p in texts[:: max(1, len(texts) // 6)]:
        # characters that 8-bit strings can't hold, and strings that are too long
        # for their length
        for more in ("\u4e00", "x" * 300):
            yield f"text {p}", spoil(view, p, at(view, p) + more)
    # lists with a value more or less (the file must be readable if it is written)
    seen = set()
    for p in lists(view):
        key = tuple(k if isinstance(k, str) else len(p) for k in p)
        if key not in seen and "preview" not in p:
            seen.add(key)
            x = list(at(view, p))
            yield f"count {p}", spoil(view, p, x[:-1])
            yield f"count {p}", spoil(view, p, x + x[-1:])


def lists(o, path=()):
    """Paths of the lists that are not empty."""
    if isinstance(o, dict):
        for k in o:
            yield from lists(o[k], path + (k,))
    elif isinstance(o, (list, tuple)):
        if len(o):
            yield path
        for i in range(len(o)):
            yield from lists(o[i], path + (i,))


def build(bad, where, eids=(1026, 1118, 2001)):
    """The records, with the bad ones at the given position."""
    r = recs()
    lst = [(e, r[e][0], r[e][1]) for e in eids]
    for b in bad:
        lst.insert(min(where, len(lst)), (b, r[b][0], r[b][1]))
    return lst


def run(payload, out):
    bad, where, target, struct_others = payload
    lists = [list(faults(b, recs()[b][0])) for b in bad]
    for combo in product(*lists) if len(bad) == 1 else zip(*lists):
        one(bad, where, target, struct_others, combo, out)


def one(bad, where, target, struct_others, combo, out):
    import os
    import tempfile

    from vfbLib.vfb.vfb import Vfb

    lst = build(bad, where)
    src = R.vfb_file([(e, d) for e, _, d in lst])
    v = Vfb(timing=False)
    v.read_bytes(BytesIO(src))
    for e, (eid, view, data) in zip(v.entries[2:], lst):
        if struct_others:
            e.data = deepcopy(view)
    for b, (fname, fval) in zip(bad, combo):
        k = [x[0] for x in lst].index(b) + 2
        v.entries[k].data = fval
    what = f"records {[x[0] for x in lst]}, {bad} spoiled ({', '.join(c[0] for c in combo)}), target {target}"
    out.state(what)
    with tempfile.TemporaryDirectory() as tmp:
        p = Path(tmp) / "font.vfb"
        old = {"absent": None, "same": src, "other": b"precious" * 1000, "empty": b""}[target]
        if old is not None:
            p.write_bytes(old)
        try:
            v.write(p)
            failed = False
        except Exception:
            failed = True
        out.trans()
        now = p.read_bytes() if p.exists() else None
        if not failed:
            # the value could be written after all: then it must be a whole file
            out.count("writable")
            if now is None:
                out.fail("silent", f"{what}: nothing was written")
            else:
                R.parse_file(now)
                if any(b in (1503, 2) for b in bad):
                    return
                w = Vfb(p, timing=False)
                for b, (fname, fval) in zip(bad, combo):
                    e = w.entries[[x[0] for x in lst].index(b) + 2]
                    try:
                        e.decompile()
                    except Exception as x:
                        out.fail(f"unreadable/{b}", f"{what}: saved without an error, but the record can't be read again: {x!r}")
                        continue
                    if fname.startswith(("range", "text")):
                        if norm(e.data) != norm(fval) and not any(f"'{k}'" in fname for k in DERIVED):
                            out.fail(f"lost/{b}", f"{what}: saved without an error, but the value is read back as {short(e.data)} instead of {short(fval)}")
            return
        if now != old:
            out.fail(
                "destroyed",
                f"{what}: the save failed, but the file now has "
                f"{'no' if now is None else len(now)} bytes (before: {'none' if old is None else len(old)})",
            )
            return
        if sorted(os.listdir(tmp)) != (["font.vfb"] if old is not None else []):
            out.fail("litter", f"{what}: files left: {os.listdir(tmp)}")
        # writing to a buffer
        buf = BytesIO(b"old")
        buf.seek(3)
        try:
            v.write_bytes(buf)
            out.fail("buffer", f"{what}: writing to a buffer succeeded after writing to a file failed")
        except Exception:
            pass
        if buf.getvalue() != b"old":
            out.fail("buffer-partial", f"{what}: a partial file was written to the buffer")
        # repair and save again
        for b in bad:
            k = [x[0] for x in lst].index(b) + 2
            v.entries[k].data = deepcopy(recs()[b][0])
        v.write(p)
        out.trans()
        if p.read_bytes() != src:
            out.fail("after", f"{what}: after the value was repaired, the saved file differs")
    out.trace()


def general(path):
    return tuple("*" if isinstance(k, int) or str(k).isdigit() else k for k in path)


SAMPLES = None


def samples():
    """Structures of each record type which together have every field."""
    global SAMPLES
    if SAMPLES is None:
        found = {}
        for pid in ("C06", "C07", "C08", "C09", "C10", "C11", "C12"):
            for name in codec.FAMILIES[pid]:
                for it in codec.items(pid, name, "quick"):
                    if it.masters == 1 and it.platform == "macos" and it.stems is None and it.data and it.eid not in (10, 1503, 2) and len(it.data) < 400:
                        f = {general(p) for p in paths(it.view)} | {("list",) + general(p) for p in lists(it.view)}
                        found.setdefault(it.eid, {}).setdefault(frozenset(f), (it.view, it.data))
        SAMPLES = {}
        for eid, d in found.items():
            seen = set()
            for f, it in sorted(d.items(), key=lambda x: (-len(x[0]), len(repr(x[1])))):
                if not f <= seen:
                    seen |= f
                    SAMPLES.setdefault(eid, []).append(it)
    return SAMPLES


def field_faults(eid, view):
    """Every field of the structure, where it occurs first and last."""
    big = 70000 if eid in BITS else 1 << 70
    ends = {}
    for p in paths(view):
        ends.setdefault(general(p), []).append(p)
    for ps in ends.values():
        for p in dict.fromkeys((ps[0], ps[-1])):
            yield f"leaf {p}", spoil(view, p, Boom())
            yield f"leaf {p}", spoil(view, p, None)
            if not isinstance(at(view, p), str):
                yield f"range {p}", spoil(view, p, big)
                yield f"range {p}", spoil(view, p, -big)
    yield from (f for f in faults(eid, view) if f[0].startswith(("text", "count")))


def run_fields(payload, out):
    global RECS
    eid, k = payload
    keep = recs()
    RECS = {**keep, eid: samples()[eid][k]}
    try:
        for f in field_faults(eid, RECS[eid][0]):
            one([eid], 1, "other", True, [f], out)
    finally:
        RECS = keep


KINDS = dict(run=run, fields=run_fields)


def cases(tier):
    r = recs()
    for b in r:
        for where in (0, 1, 3):
            for target in ("absent", "same", "other", "empty"):
                if target != "other" and where != 1:
                    continue
                yield "run", [[b], where, target, where != 0]
    for b, lst in samples().items():
        for k in range(len(lst)):
            yield "fields", [b, k]
    if tier == "thorough":
        for a, b in combinations(r, 2):
            yield "run", [[a, b], 1, "other", True]
