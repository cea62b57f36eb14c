"""vfb3ufo: the written UFOs have what the conversion in memory gives, are where
the arguments say, and nothing else changes."""
import os
import subprocess
import sys
from itertools import combinations, product

from mc import cli
from mc import ref as R
from mc import ufo as U
from mc.codec import gl
from mc.core import DATA, samples, short
from mc.flat import changed, flat
from mc.rich import SECTIONS, rich

PID = "C32"
RULE = (
    "all combinations of the conversion options and output formats for fonts with a bit of everything and 1, 2 and 4 masters, with sections left out; "
    "all combinations of output arguments, names, formats, existing outputs and overwriting; all sequences of exports to the same place; "
    "failing exports; a state is a command line on a file system"
)
BOUNDS = {
    "quick": "32 option sets x 5 formats x 3 fonts; 19 sections left out x 5 formats; 3 names x 7 output arguments x 5 formats x 4 sets of existing output x overwriting; all pairs of exports of 3 fonts; fixtures in 2 formats; texts in 2 encodings on 2 platforms; 2 hash seeds; quiet and verbose",
    "thorough": "also all pairs of sections left out, all fixtures x 5 formats x options, all triples of exports, 4 hash seeds",
}
ASSUMPTIONS = ["the conversion in memory is checked by C19-C27", "line ends and indentation of texts are not compared (UFO normalization)"]
CHUNK = 1
CASE_LIMIT = 400
FORMATS = [(), ("-n",), ("-z",), ("-j",), ("-j", "-z")]
FLAGS = [("-m",), ("-k",), ("-g",), ("-64",), ("-nops",)]


def cases(tier):
    q = tier == "quick"
    for m in (1, 2, 4):
        for fmt in range(len(FORMATS)):
            for first in (0, 1):
                yield "content", [m, fmt, [], first]
    for s in SECTIONS:
        for m in (1, 2):
            yield "sections", [m, [s]]
    if not q:
        for a in combinations(SECTIONS, 2):
            for m in (1, 2):
                yield "sections", [m, list(a)]
    for name in ("font", "two.parts", "sp ace"):
        for fmt in range(len(FORMATS)):
            for m in (1, 2):
                yield "paths", [name, fmt, m]
    for fmt in range(len(FORMATS)):
        yield "again", [fmt, 2 if q else 3]
        for m in (1, 2):
            yield "encoding", [m, fmt]
    yield "failing", None
    for s in range(2 if q else 4):
        yield "hashseed", s
    for name, _ in samples():
        for fmt in range(len(FORMATS)) if not q else (1, 4):
            for fl in (0,) if q else range(4):
                yield "fixture", [name, fmt, fl]


def suffix(fmt):
    return ".json" if "-j" in fmt else ".ufoz" if "-z" in fmt else ".ufo"


def outputs(base, m, fmt):
    """Paths of what is written"""
    p = [f"{base}{'' if i == 0 else f'-{i}'}{suffix(fmt)}" for i in range(m)]
    return p, [f"{base}.designspace"] if m > 1 else []


def load(path):
    from ufoLib2 import Font

    if path.suffix == ".json":
        return Font.json_load(path)
    return Font.open(path, lazy=False)


def memory(data, flags):
    from vfbLib.enum import F

    f = [x for fl in flags for x in fl]
    return U.convert(
        data, reading=dict(unicode_strings="-u" in f), minimal="-m" in f, drop={F.Encoding, F.EncodingDefault}, base64="-64" in f, pshints="-nops" not in f,
        add_kerning_groups="-k" in f, move_groups="-g" not in f,
    )  # fmt: skip


def compare(d, base, data, flags, fmt, out, what):
    ufos, ds = memory(data, flags)
    paths, dspaths = outputs(base, len(ufos), fmt)
    for i, (u, p) in enumerate(zip(ufos, paths)):
        if not (d / p).exists():
            out.fail("content/missing", f"{what}: no {p}")
            continue
        try:
            got = load(d / p)
        except Exception as e:
            out.fail("content/read", f"{what}: {type(e).__name__}: {e}")
            continue
        diff = changed(flat(got), flat(u))
        if diff:
            out.fail(f"content/{sorted(diff)[0].split(' > ')[0].split('/')[-1].split(' ')[-1]}", f"{what}: master {i} in the file and in memory: {short(diff)}")
    if len(ufos) > 1:
        from fontTools.designspaceLib import DesignSpaceDocument

        doc = DesignSpaceDocument.fromfile(d / dspaths[0])
        want = [str(d / p) for p in paths]
        got = [s.path for s in doc.sources]
        if got != want:
            out.fail("content/designspace", f"{what}: {got}")


def form(d, base, data, flags, fmt, out, what):
    """Normalized files are those which ufonormalizer doesn't change, others
    those which ufoLib2 writes."""
    from ufonormalizer import normalizeUFO

    ufos, _ = memory(data, flags)
    for i, (u, p) in enumerate(zip(ufos, outputs(base, len(ufos), fmt)[0])):
        got = cli.tree(d / p)
        with cli.scratch() as e:
            if "-n" in fmt:
                u.save(e / "x.ufo")
            else:
                for f, b in got.items():
                    (e / "x.ufo" / f).parent.mkdir(parents=True, exist_ok=True)
                    (e / "x.ufo" / f).write_bytes(b)
                normalizeUFO(e / "x.ufo", onlyModified=False, writeModTimes=False)
            want = cli.tree(e / "x.ufo")
        if got != want:
            bad = [k for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k)]
            out.fail("content/normalized", f"{what}: master {i}: {bad[:5]} are not {'as ufoLib2 writes them' if '-n' in fmt else 'normalized'}")


def tops(tree):
    """File names of the top level (a UFO is one item)"""
    return {k.split("/")[0] for k in tree}


def export(data, flags, fmt, out, what):
    args = [x for fl in flags for x in fl] + list(fmt)
    with cli.scratch() as d:
        (d / "f.vfb").write_bytes(data)
        code, text = cli.run("vfb3ufo", *args, d / "f.vfb")
        if code:
            out.fail("content/error", f"{what}: {code}")
            return
        if (d / "f.vfb").read_bytes() != data:
            out.fail("content/input", f"{what}: the input was changed")
        compare(d, "f", data, flags, fmt, out, what)
        if fmt in ((), ("-n",)):
            form(d, "f", data, flags, fmt, out, what)
        if not text:
            out.fail("content/quiet", f"{what}: nothing is printed")
        first = cli.tree(d)
        # Silent, over the existing files
        code, text = cli.run("vfb3ufo", *args, "-s", "-fo", d / "f.vfb")
        if code:
            out.fail("content/error", f"{what} again: {code}")
            return
        if text:
            out.fail("content/silent", f"{what}: prints {short(text)}")
        again = cli.tree(d)
        if "-z" in fmt and "-j" not in fmt:
            # (a zip file has time stamps)
            compare(d, "f", data, flags, fmt, out, f"{what} again")
            if set(again) != set(first):
                out.fail("content/again", f"{what}: {sorted(set(again) ^ set(first))}")
        elif again != first:
            out.fail("content/again", f"{what}: another export differs: {[k for k in sorted(set(first) | set(again)) if first.get(k) != again.get(k)]}")
        out.trans(2)


def run_content(payload, out):
    m, fmt, skip, first = payload
    data = rich(m, skip)
    for on in product((0, 1), repeat=len(FLAGS)):
        if on[0] != first:
            continue
        flags = [f for f, o in zip(FLAGS, on) if o]
        what = f"{m} masters {flags} {FORMATS[fmt]} without {skip}"
        out.state(what)
        export(data, flags, FORMATS[fmt], out, what)
        out.trace()


# texts of a font that was written with the other encoding
TEXTS = ["\u00fcber", "\u00c4\u20ac", "a\u03b1\u4e2d", "A"]


def run_encoding(payload, out):
    """Texts which are no ASCII, on both platforms, with and without -u (which changes nothing here)"""
    from vfbLib.enum import F

    m, fmt = payload
    for enc, platform in product(("utf-8", "cp1252"), ("windows", "macos")):
        texts = [t.encode(enc, "ignore") for t in TEXTS]
        before = [(int(k), texts[i % 4]) for i, k in enumerate((F.full_name, F.font_name, F.family_name, F.copyright, F.designer))]
        before += [(1277, b"c_" + texts[1] + b": A"), (1276, texts[0])]
        data = U.font([(gl(name="A", num_masters=m, metrics=[(500, 0)] * m), [(2017, texts[1]), (2015, texts[0])])], masters=m, before=before, platform=platform)
        for on in product((0, 1), repeat=2):
            flags = [f for f, o in zip((("-u",), ("-m",)), on) if o]
            what = f"{enc} on {platform} {m} masters {flags} {FORMATS[fmt]}"
            out.state(what)
            export(data, flags, FORMATS[fmt], out, what)
    out.trace()


def run_sections(payload, out):
    m, skip = payload
    data = rich(m, skip)
    for fmt in FORMATS:
        for flags in ([], [("-v",)], [("-m",), ("-k",), ("-64",)]):
            what = f"{m} masters {flags} {fmt} without {skip}"
            out.state(what)
            export(data, flags, fmt, out, what)
        out.trace()


# output arguments: (arguments for folder d and name, where it goes)
OUT = [
    (lambda d, n: [], lambda n: n),
    (lambda d, n: ["-p", f"{d}/sub"], lambda n: f"sub/{n}"),
    (lambda d, n: ["-p", f"{d}/sub/"], lambda n: f"sub/{n}"),
    (lambda d, n: [None, f"{d}/other.ufo"], lambda n: "other"),
    (lambda d, n: [None, f"{d}/sub/other.ufoz"], lambda n: "sub/other"),
    (lambda d, n: [None, f"{d}/x/../sub/other"], lambda n: "sub/other"),
    (lambda d, n: ["-p", f"{d}/sub", None, f"{d}/other.ufo"], lambda n: f"sub/{n}"),
]


def run_paths(payload, out):
    name, fi, m = payload
    fmt = FORMATS[fi]
    data = U.font([gl(name="A", num_masters=m, nodes=U.contour(("line", "curve"), m))], masters=m)
    old = U.font([gl(name="old", num_masters=m)], masters=m)
    paths, ds = outputs("", m, fmt)
    everything = paths + ds
    for k, (args, where) in enumerate(OUT):
        # what exists before: nothing, everything, one of the files
        files = [x for x in everything if not x.endswith(".ufo")]
        for existing, empty in [([], 0), (everything, 0)] + [([x], 0) for x in everything] + [([x], 1) for x in files]:
            for force in (False, True):
                what = f"{name} {fmt} {m} masters, output {k}, existing {existing}{' (empty)' * empty}, {force}"
                out.state(what)
                with cli.scratch() as d:
                    src = d / f"{name}.vfb"
                    src.write_bytes(data)
                    (d / "sub").mkdir()
                    (d / "x").mkdir()
                    (d / "keep.ufo").mkdir()
                    (d / "keep.ufo" / "metainfo.plist").write_text("mine")
                    base = where(name)
                    for x in existing:
                        if empty:
                            (d / (base + x)).parent.mkdir(parents=True, exist_ok=True)
                            (d / (base + x)).write_bytes(b"")
                        else:
                            make(d / (base + x), old, fmt, d)
                    a = args(d, name)
                    argv = [*fmt, *(["-fo"] if force else [])]
                    if None in a:
                        i = a.index(None)
                        argv += a[:i] + [src] + a[i + 1 :]
                    else:
                        argv += a + [src]
                    before = cli.tree(d)
                    code, _ = cli.run("vfb3ufo", "-s", *argv)
                    after = cli.tree(d)
                    if existing and not force:
                        if not code:
                            out.fail("paths/overwritten", f"{what}: no error")
                        lost = [f for f in before if after.get(f) != before[f]]
                        if lost:
                            out.fail("paths/overwritten", f"{what}: {lost} changed in spite of {code}")
                        continue
                    if code:
                        out.fail("paths/error", f"{what}: {code}")
                        continue
                    mine = [base + x for x in everything]
                    for f in after:
                        if not any(f == x or f.startswith(x + "/") for x in mine) and after[f] != before.get(f):
                            out.fail("paths/stray", f"{what}: wrote {f}")
                    for f in before:
                        if f not in after and not any(f.startswith(x + "/") for x in mine):
                            out.fail("paths/lost", f"{what}: {f} was deleted")
                    compare(d, base, data, [], fmt, out, what)
                    out.trans()
    out.trace()


def make(path, data, fmt, d):
    """An older export at the path"""
    if path.suffix == ".designspace":
        path.write_text("<designspace/>")
        return
    u = memory(data, [])[0][0]
    if path.suffix == ".json":
        u.json_dump(path)
    elif path.suffix == ".ufoz":
        from fontTools.ufoLib import UFOFileStructure

        u.save(path, structure=UFOFileStructure.ZIP)
    else:
        u.save(path)


def run_again(payload, out):
    """Exports over each other: the last one counts, nothing is left of the others"""
    fi, depth = payload
    fmt = FORMATS[fi]
    fonts = [
        rich(1),
        rich(1, ("mask", "dup", "groups", "fea", "lib")),
        U.font([gl(name="a", nodes=U.contour(("line",))), gl(name="A")]),
        rich(2),
    ]
    fresh = []
    for f in fonts:
        with cli.scratch() as d:
            (d / "f.vfb").write_bytes(f)
            cli.run("vfb3ufo", "-s", *fmt, d / "f.vfb")
            fresh.append({k: v for k, v in cli.tree(d).items() if k != "f.vfb"})
    for seq in product(range(len(fonts)), repeat=depth):
        with cli.scratch() as d:
            want = {}
            for i in seq:
                (d / "f.vfb").write_bytes(fonts[i])
                code, _ = cli.run("vfb3ufo", "-s", "-fo", *fmt, d / "f.vfb")
                if code:
                    out.fail("again/error", f"{fmt} {seq}: {code}")
                # files of the font's masters are replaced as a whole
                for t in tops(fresh[i]):
                    want = {k: v for k, v in want.items() if k.split("/")[0] != t}
                want.update(fresh[i])
                got = {k: v for k, v in cli.tree(d).items() if k != "f.vfb"}
                if ".ufoz" in suffix(fmt):
                    if set(got) != set(want):
                        out.fail("again/files", f"{fmt} {seq}: {sorted(set(got) ^ set(want))}")
                    compare(d, "f", fonts[i], [], fmt, out, f"again {seq}")
                elif got != want:
                    out.fail("again/files", f"{fmt} {seq}: {[k for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k)]}")
                out.trans()
            out.state(f"{fmt}{seq}")
    out.trace()


def run_failing(_, out):
    good = rich(1)
    bad = {
        "cut": good[:-9],
        "signature": b"X" + good[1:],
        "record": U.font([gl(name="A")], before=[(1048, b"\x01")]),
        "glyph": U.font([], after=[(2001, b"\x01\x09\x07\x01\x08")]),
        "empty": b"",
    }
    for (name, data), fmt, force in product(bad.items(), FORMATS, (False, True)):
        with cli.scratch() as d:
            (d / "f.vfb").write_bytes(good)
            cli.run("vfb3ufo", "-s", *fmt, d / "f.vfb")
            (d / "f.vfb").write_bytes(data)
            before = cli.tree(d)
            code, _ = cli.run("vfb3ufo", "-s", *fmt, *(["-fo"] if force else []), d / "f.vfb")
            out.state(f"{name} {fmt} {force}")
            if not code:
                out.fail("failing/silent", f"{name} {fmt}: no error")
            if cli.tree(d) != before:
                out.fail("failing/files", f"{name} {fmt}: {code}")
            out.trans()
    with cli.scratch() as d:
        code, _ = cli.run("vfb3ufo", d / "no.vfb")
        if not code or cli.tree(d):
            out.fail("failing/missing", f"{code}")
    out.trace()


def run_hashseed(seed, out):
    """The export doesn't depend on the process it is made by"""
    trees = []
    for hs in ("0", str(seed + 1)):
        with cli.scratch() as d:
            for m in (1, 4):
                (d / f"f{m}.vfb").write_bytes(rich(m))
                env = dict(os.environ, PYTHONHASHSEED=hs)
                for fmt in ((), ("-j", "-p", str(d / "j"))):
                    (d / "j").mkdir(exist_ok=True)
                    r = subprocess.run(
                        [sys.executable, "-c", "from vfbLib.cmdline import vfb2ufo; vfb2ufo()", "-s", *fmt, str(d / f"f{m}.vfb")],
                        env=env, capture_output=True, text=True, timeout=100,
                    )  # fmt: skip
                    if r.returncode:
                        out.fail("hashseed/error", r.stderr[-300:])
            trees.append(cli.tree(d))
    out.state(str(seed))
    out.trans(4)
    if trees[0] != trees[1]:
        out.fail("hashseed/differs", f"{[k for k in trees[0] if trees[0][k] != trees[1].get(k)]}")
    out.trace()


def run_fixture(payload, out):
    name, fi, fl = payload
    flags = [[], [("-m",)], [("-k",), ("-64",)], [("-g",), ("-nops",)]][fl]
    what = f"{name} {FORMATS[fi]} {flags}"
    out.state(what)
    export((DATA / name).read_bytes(), flags, FORMATS[fi], out, what)
    out.trace()


KINDS = {
    "encoding": run_encoding, "content": run_content, "sections": run_sections, "paths": run_paths, "again": run_again,
    "failing": run_failing, "hashseed": run_hashseed, "fixture": run_fixture,
}  # fmt: skip
