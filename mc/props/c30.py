"""vfbdiff: the output has exactly the differences between the contents."""
import html
import json
import re
from itertools import combinations

from mc import cli, codec
from mc import ref as R
from mc import ufo as U
from mc.codec import gl
from mc.core import DATA, samples, short
from mc.props.c29 import FAMS, plain
from mc.rich import SECTIONS, rich

PID = "C30"
RULE = (
    "all ordered pairs of fonts of a list, in which one section, record, glyph or value each differs, and all pairs of neighbouring "
    "contents of the record families, as text and as HTML; a state is a pair of files"
)
BOUNDS = {
    "quick": "29 x 29 fonts as text and every other pair as HTML; every 7th pair of neighbouring record contents of C06-C12; 12 pairs of sample fonts",
    "thorough": "all pairs of 180 fonts with up to 2 sections left out as text; 29 x 29 fonts as HTML; every record content; all pairs of small sample fonts",
}
ASSUMPTIONS = ["contents that JSON cannot hold (lone surrogates) are left out"]
CHUNK = 1
CASE_LIMIT = 400
PERFAM = {"quick": 7, "thorough": 1}


def variants(tier):
    v = [rich(1), rich(2), rich(4), rich(1, platform="windows"), U.font([]), U.font([gl(name="A")]), U.font([gl(name="B")])]
    v += [rich(1, kern=(10, -21)), rich(1, glyphs=("A", "B")), rich(1, glyphs=("A", "\u00e9", "C"))]
    v += [rich(1, (s,)) for s in SECTIONS]
    if tier != "quick":
        v += [rich(1, s) for s in combinations(SECTIONS, 2)]
    return v


def cases(tier):
    q = tier == "quick"
    n = 10 + len(SECTIONS)
    for i in range(n):
        yield "pairs", [i, "quick", True, q]
    if not q:
        for i in range(len(variants(tier))):
            yield "pairs", [i, tier, False, q]
    for pid in FAMS:
        for _, p in codec.cases(pid, "quick", 256):
            yield "records", [*p, PERFAM[tier]]
    names = [n for n, size in samples() if size < 60000]
    for i, a in enumerate(names):
        yield "fixtures", [a, names[i + 1 :] if not q else names[i + 1 : i + 2]]


def text_of(data):
    v = U.read(data)
    return json.dumps(plain(v.as_dict()), indent=2, sort_keys=True, ensure_ascii=False)


NUMBER = re.compile(r"([-+ ]?\s*(?:\"[^\"]*\": )?)(-?\d[\d.]*(?:[eE][-+]?\d+)?)(,?)")


def canon(line):
    """Line with the number in it in the same format"""
    m = NUMBER.fullmatch(line)
    return m[1] + repr(float(m[2])) + m[3] if m and set(m[2]) & set(".eE") else line


def lines_of(data):
    return [canon(x) for x in text_of(data).splitlines()]


def patch(lines, diff):
    """Apply a unified diff: lines of the second file; None if it doesn't apply"""
    out, pos = [], 0
    hunk = None
    for d in diff:
        if hunk is None and (d.startswith("--- ") or d.startswith("+++ ") or not d.strip()):
            continue
        m = re.fullmatch(r"@@ -(\d+)(?:,(\d+))? \+(\d+)(?:,(\d+))? @@\s*", d)
        if m:
            start, cnt = int(m[1]), int(m[2] or 1)
            start = start - 1 if cnt else start
            if start < pos:
                return None
            out += lines[pos:start]
            pos = start
            hunk = True
            continue
        if not d:
            # (print adds a line end to those that the headers have)
            continue
        tag, line = d[0], d[1:]
        if tag in " -":
            if pos >= len(lines) or lines[pos] != line:
                return None
            pos += 1
        if tag in " +":
            out.append(line)
        if tag not in " -+":
            return None
    return out + lines[pos:]


ROW = re.compile(r"<tr>(.*?)</tr>", re.S)
CELL = re.compile(r'<td class="diff_header" id="(?:from|to)\d+_(\d*)">(\d*)</td><td nowrap="nowrap">(.*?)</td>', re.S)


def rows_of(page):
    """[((number, text), (number, text), changed)] of an HTML diff"""
    res = []
    body = page[page.index("<tbody>") :] if "<tbody>" in page else ""
    body = body[: body.rindex("</tbody>")] if "</tbody>" in body else body
    for row in ROW.findall(body):
        cells = re.findall(r'<td class="diff_header"[^>]*>(.*?)</td>\s*<td nowrap="nowrap">(.*?)</td>', row, re.S)
        if len(cells) != 2:
            continue
        r = []
        for n, t in cells:
            t = html.unescape(re.sub(r"<[^>]*>", "", t)).replace("\xa0", " ")
            r.append((int(n) if n.strip().isdigit() else None, t))
        res.append((*r, "<span" in row))
    return res


def check(d, a, b, la, lb, as_html, out, what):
    if not as_html:
        code, text = cli.run("vfbdiff", a, b)
        if code:
            out.fail("text/error", f"{what}: {code}")
            return
        diff = [canon(x) for x in text.split("\n")]
        if la == lb:
            if text.strip():
                out.fail("text/same", f"{what}: {short(text)}")
            return
        got = patch(la, diff)
        if got != lb:
            out.fail("text/wrong", f"{what}: {'does not apply' if got is None else 'gives another content'}: {short(text)}")
        return
    page = d / "diff.html"
    code, text = cli.run("vfbdiff", "--html", page, a, b)
    if code or not page.exists():
        out.fail("html/error", f"{what}: {code}")
        return
    rows = rows_of(page.read_text("utf-8"))
    page.unlink()
    rest = []
    for side, lines in ((0, la), (1, lb)):
        lines = [x.replace("\xa0", " ") for x in lines]
        seen = set()
        for r in rows:
            n, t = r[side]
            if n is None:
                continue
            seen.add(n)
            if not 1 <= n <= len(lines) or lines[n - 1].rstrip() != t.rstrip():
                out.fail("html/line", f"{what}: line {n} of file {side + 1} is shown as {t!r}, but is {lines[n - 1 : n]}")
                return
        rest.append([x for i, x in enumerate(lines, 1) if i not in seen])
    if rest[0] != rest[1]:
        out.fail("html/missing", f"{what}: differences that are not shown: {short(rest)}")
    for x, y, marked in rows:
        if not marked and x[0] and y[0] and x[1].rstrip() != y[1].rstrip():
            out.fail("html/unmarked", f"{what}: {x} {y}")
        if marked and la == lb:
            out.fail("html/marked", f"{what}: {x} {y}")


def run_pairs(payload, out):
    i, tier, with_html, q = payload
    vs = variants(tier)
    texts = [lines_of(v) for v in vs]
    with cli.scratch() as d:
        for k, v in enumerate(vs):
            (d / f"{k}.vfb").write_bytes(v)
        before = cli.tree(d)
        for k in range(len(vs)):
            what = f"fonts {i} and {k} ({tier})"
            a, b = d / f"{i}.vfb", d / f"{k}.vfb"
            if tier == "quick":
                check(d, a, b, texts[i], texts[k], False, out, what)
            elif k > i:
                check(d, a, b, texts[i], texts[k], False, out, what)
            if with_html and (not q or (i + k) % 2 == 0):
                check(d, a, b, texts[i], texts[k], True, out, what + ", HTML")
            out.state(what)
            out.trans()
        if cli.tree(d) != before:
            out.fail("files", f"fonts {i}: files were changed")
    out.trace()


def run_records(payload, out):
    pid, name, tier, lo, hi, step = payload
    its = codec.items(pid, name, tier)[lo:hi]
    with cli.scratch() as d:
        a, b = d / "a.vfb", d / "b.vfb"
        for k in range(0, len(its) - 1, step):
            x, y = its[k], its[k + 1]
            if x.ctx() != y.ctx():
                continue
            da, db = (R.vfb_file([(t.eid, t.data)], masters=t.masters, platform=t.platform, stems=t.stems) for t in (x, y))
            try:
                la, lb = lines_of(da), lines_of(db)
                "".join(la + lb).encode("utf-8")
            except UnicodeEncodeError:
                continue
            a.write_bytes(da)
            b.write_bytes(db)
            what = f"{pid} {name} {lo + k}"
            check(d, a, b, la, lb, False, out, what)
            # equal contents give no difference
            if k % 5 == 0:
                b.write_bytes(da)
                check(d, a, b, la, la, False, out, what)
            out.state(what)
            out.trans()
    out.trace()


def run_fixtures(payload, out):
    a, others = payload
    la = lines_of((DATA / a).read_bytes())
    with cli.scratch() as d:
        check(d, DATA / a, DATA / a, la, la, False, out, a)
        for b in others:
            lb = lines_of((DATA / b).read_bytes())
            if len(la) + len(lb) > 30000:
                continue
            check(d, DATA / a, DATA / b, la, lb, False, out, f"{a} {b}")
            out.state(f"{a} {b}")
            out.trans()
    out.trace()


KINDS = {"pairs": run_pairs, "records": run_records, "fixtures": run_fixtures}
