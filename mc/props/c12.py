from io import BytesIO
from itertools import product

from mc import codec
from mc import ref as R

PID = "C12"


def run_platform(versions, out):
    """The platform named by the version record, whatever its version and
    wherever it stands, decides how the bits are stored"""
    from vfbLib.vfb.vfb import Vfb

    for version, platform, first in product(versions, ("windows", "macos", None), (True, False)):
        pf = platform or "macos"
        data = [0x80, 1, 0, 0, 255, 7]
        view, enc = codec.image(data, 16, 3, pf)
        v2, e2 = codec.gbitmap(data, 16, 3, pf)
        recs = [R.entry(10, R.flversion(platform, version, 3))] if platform else []
        recs.insert(len(recs) if first else 0, R.entry(R.MASTERCOUNT, R.u16(1)))
        blob = R.header() + b"".join(recs) + R.entry(2007, enc) + R.entry(2013, R.num(1) + e2) + R.entry(R.END, b"")
        what = f"version {version}, {platform}, version record first: {first}"
        out.state(what)
        v = Vfb(timing=False)
        v.read_bytes(BytesIO(blob))
        out.eq(v.writer_platform, pf, "platform/name", what)
        v.decompile()
        es = {e.id: e for e in v.entries}
        out.eq(es[2007].data, view, "platform/image", what)
        out.eq(es[2013].data, [v2], "platform/bitmap", what)
        b = BytesIO()
        v.write_bytes(b)
        if b.getvalue() != blob:
            out.fail("platform/written", f"{what}: the file written differs")
        out.trans(2)
    out.trace()


KINDS = {"record": codec.run, "platform": run_platform}
RULE = (
    "all single-field deviations over boundary domains, all shapes and type "
    "sequences up to the stated sizes; a state is a distinct record content"
)
BOUNDS = {
    "quick": "see the families of this property in mc/codec.py; sequences up to 3-5 elements",
    "thorough": "sequences one or two elements longer, dense integer ranges",
}
CHUNK = 4


def cases(tier):
    for a in (0, 3, 4, 5, 127, 128, 255):
        yield "platform", [(a, b, c, d) for b in (0, 6, 255) for c in (0, 2) for d in (0, 128)]
    yield from codec.cases(PID, tier)
