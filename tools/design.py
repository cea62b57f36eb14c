#!/usr/bin/env python3
"""Write DESIGN.md: head + one section per property + tail."""
import ast
import json
from pathlib import Path

HERE = Path(__file__).resolve().parent
ORACLE = {
    "C01": "definition of the number code in `mc/ref.py` (`num`), written from the format; cuts must raise EOFError",
    "C02": "reference framing (`ref.entry`, `ref.vfb_file`); bytes in = bytes out; record list; built and resized records",
    "C03": "reference framing decides for each damaged file: refuse, or exactly these records; the implementation may refuse more, never invent",
    "C04": "model: the set of records looked at; all others byte-identical, the looked-at ones equal in structure",
    "C05": "a list of (id, structure or bytes) as state machine; each save compared with the reference bytes of the state",
    "C06": "reference encoders: structure <-> bytes, both directions, alternative encodings decode to the same and come out canonical",
    "C13": "termination; error => bytes unchanged; else decode(encode(x)) = x",
    "C14": "state machine (target file contents, record list); after the fault: error, target unchanged, no temporary file; after the correction: everything saved",
    "C15": "each object alone (fresh) is the model of the object in the interleaving; equal records compared with the reference structure after another copy was changed in every place",
    "C16": "`U.ref_segments`, `U.ref_points`: outlines as defined by the node list; name list with `#n` for repeats",
    "C17": "list-of-contours model of two glyphs; compared after every step (eager) and only at the end (lazy)",
    "C18": "model: per master, outline as drawn; incompatible outlines must be refused and leave the font writable",
    "C19": "reference outlines, closing point merged only if it coincides in all masters, same structure in all masters",
    "C20": "component transformation from the stored numbers; metrics per master",
    "C21": "anchor/guide/mask reference from the records, angle in degrees from the slope",
    "C22": "list model of glyph names (renamed repeats), code points, attachments to the glyph that precedes the record",
    "C23": "independent resolution of commands: node index -> point label of the UFO -> coordinates of the point in the VFB outline; stems, zones by position",
    "C24": "independent interpretation of the hint mask program and of links; sets per node",
    "C25": "kerning meaning: for each glyph pair and master the effective value by exception > class rules of UFO and of the VFB must agree",
    "C26": "axis, mapping and location model; the written document is read again with fontTools from several folders",
    "C27": "table record -> UFO attribute, written from the UFO and OpenType specifications",
    "C28": "`datetime` arithmetic with time zones; bit sets; XML parsed again; feature text re-joined",
    "C29": "JSON read again = decoded records of the reference; command line model (file system before -> after)",
    "C30": "line multiset difference between the normalised contents of both files; HTML parsed into rows",
    "C31": "independent TTH model: commands, stems, zones, tables from the stored records, in memory, and parsed from the 3 file formats",
    "C32": "conversion in memory (checked by C19-C27) = files read with ufoLib2; file system model for every argument combination",
    "C33": "file without the records = file read with these records dropped",
    "C34": "fontTools `curves_to_quadratic` for all masters, distance measured; everything else of the file equal to the input",
    "C35": "each operation on a fresh font is the model of the operation in a sequence; the font read again is the model of the font after",
    "C36": "number code of `mc/ref.py`; printed text",
}
for k in ("C07", "C08", "C09", "C10", "C11", "C12"):
    ORACLE[k] = ORACLE["C06"]
TIMES = json.loads((HERE / "times.json").read_text())


def consts(path):
    d = {}
    for n in ast.parse(path.read_text()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                d[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return d


out = [(HERE / "design_head.md").read_text().rstrip() + "\n"]
for line in (HERE.parent / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)
    c = consts(HERE.parent / "mc" / "props" / f"{p['id'].lower()}.py")
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(f"- Enumerated: {c['RULE']}.")
    for t in ("quick", "thorough"):
        out.append(f"- Bounds, {t}: {c['BOUNDS'][t]}.")
    out.append(f"- Oracle: {ORACLE[p['id']]}.")
    out.append(f"- Why tests can't: {p['why_tests_cant']}")
    for a in c.get("ASSUMPTIONS", []):
        out.append(f"- Assumption: {a}.")
    q, t = TIMES.get(p["id"], ["?", "?"])
    out.append(f"- Time: {q} s / {t} s.\n")
out.append((HERE / "design_tail.md").read_text().rstrip())
rows = ["", "| change | property | needs | caught by |", "|---|---|---|---|"]
caught = json.loads((HERE / "caught.json").read_text())
for s in sorted((HERE.parent / "seeded").iterdir()):
    m = json.loads((s / "meta.json").read_text())
    rows.append(f"| {s.name} | {m['property']} | {m['needs']} | {caught.get(s.name, '?')} |")
out += rows
(HERE.parent / "DESIGN.md").write_text("\n".join(out) + "\n")
