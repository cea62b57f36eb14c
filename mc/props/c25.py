"""Kerning and groups in UFO: the kerning every glyph pair gets, the contents of
groups, where groups go, the kerning code of features."""
from itertools import combinations, product

from mc import ref as R
from mc import ufo as U
from mc.codec import gl

PID = "C25"
RULE = (
    "all combinations of left and right kerning classes over 3 glyphs, with all sets of stored pairs up to the given size and "
    "all kinds of values (0 or not, per master); all lists of classes over a menu of names, flags and contents, with all "
    "conversion options; a state is a set of classes plus stored pairs or a list of classes with options"
)
BOUNDS = {
    "quick": "8 x 8 class configurations, up to 3 of 9 pairs, 1 master with 2 kinds of values, up to 2 pairs with 2 masters and 4 kinds; all lists of up to 2 of 68 classes x 8 options; all pairs of 11 classes that share glyphs; up to 300 classes, up to 300 glyphs per class",
    "thorough": "8 x 8 class configurations, all sets of the 9 pairs with 2 kinds of values, up to 4 pairs with 2 masters and 4 kinds; up to 3 classes x 8 options, 4 names",
}
CHUNK = 1
CASE_LIMIT = 300
N = "ABC"
# (flag bits, members); every copy of the scene gets its own glyphs
CONF = [
    None,
    (1, ["A'"]),
    (1, ["A'", "B"]),
    (1, ["A", "B'"]),
    (1, ["A'", "B", "C"]),
    (1, ["B'", "C"]),
    (1, ["A", "B"]),  # no key glyph
    (0, ["A'", "B"]),  # side unknown: ignored
]
PAIRS = list(product(range(3), repeat=2))
F1, F2 = 2**10, 2**11
BATCH = 180


def scenes(m, kmax):
    kinds = 2 if m == 1 else 4
    for k in range(kmax + 1):
        for pairs in combinations(range(9), k):
            for vals in product(range(kinds), repeat=k):
                yield list(zip(pairs, vals))


def cases(tier):
    q = tier == "quick"
    for left in range(8):
        for right in range(8):
            for k in range(1, 10 if not q else 4):
                if k < (8 if q else 4):
                    yield "kern", [left, right, 1, k, None]
                else:
                    for p in range(9):
                        yield "kern", [left, right, 1, k, p]
            for k in range(1, 5 if not q else 3):
                yield "kern", [left, right, 2, k, None]
    for i in range(len(MENU) + 1):
        yield "groups", [i, 2 if q else 3]
    for n in (9, 10, 12, 40, 127, 128, 300):
        yield "many", n
    yield "fea", None
    yield "dup", None
    for i in range(len(OVER)):
        yield "overlap", [i, 2 if q else 3]


def value(kind, n, m):
    v = -10 - n
    if m == 1:
        return [v if kind else 0]
    return [[0, v], [v, 0], [v, v + 50], [0, 0]][kind]


def expected(stored, kl, kr, l, r):
    """Kerning of the glyph pair: kerning of a class is that of its key glyph;
    single glyphs go before classes"""
    for a, b in ((l, r), (l, kr), (kl, r), (kl, kr)):
        if (a, b) in stored and a is not None and b is not None:
            return stored[a, b]
    return None


def effective(kerning, groups1, groups2, l, r):
    """Kerning of the glyph pair by the UFO specification"""
    gl_, gr_ = groups1.get(l), groups2.get(r)
    for a, b in ((l, r), (l, gr_), (gl_, r), (gl_, gr_)):
        if (a, b) in kerning:
            return kerning[a, b]
    return 0


def key_of(conf, i):
    if conf is None or not conf[0]:
        return None
    names = [x.strip("'") for x in conf[1]]
    key = [x[0] for x in conf[1] if x.endswith("'")]
    if N[i] in names and key:
        return N.index(key[0])
    return None


def run_kern(payload, out):
    left, right, m, k, first = payload
    todo = []
    for sc in scenes(m, k):
        if len(sc) == k and (first is None or sc[0][0] == first):
            todo.append(sc)
    for lo in range(0, len(todo), BATCH):
        kern_batch(left, right, m, todo[lo : lo + BATCH], out, payload)


def kern_batch(left, right, m, todo, out, payload):
    out.case = ("kern", payload)
    if not todo:
        return
    glyphs, classes, flags = [], [], {}
    for c, sc in enumerate(todo):
        kern = [{}, {}, {}]
        for n, (p, kind) in enumerate(sc):
            a, b = PAIRS[p]
            kern[a][c * 3 + b] = value(kind, n, m)
        for i in range(3):
            d = gl(num_masters=m, name=f"{N[i]}{c}", metrics=[(500, 0)] * m)
            if kern[i]:
                d["kerning"] = kern[i]
            glyphs.append(d)
        for conf, bit, nm in ((CONF[left], F1, "L"), (CONF[right], F2, "R")):
            if conf:
                name = f"_{nm}{c}"
                classes.append(name + ": " + " ".join(f"{x[0]}{c}" + ("'" if x.endswith("'") else "") for x in conf[1]))
                if conf[0]:
                    flags[name] = (bit, 0)
    before = [U.s(1277, x) for x in classes]
    before.append((2026, R.num(len(flags)) + b"".join(R.pstr(n) + R.nums(v) for n, v in flags.items())))
    ufos, _ = U.convert(U.font(glyphs, m, before=before))
    for mi, ufo in enumerate(ufos):
        g1, g2 = {}, {}
        for name, members in ufo.groups.items():
            d = g1 if name.startswith("public.kern1.") else g2 if name.startswith("public.kern2.") else None
            if d is None:
                out.fail("kern/group", f"group {name}")
                continue
            for x in members:
                if x in d:
                    out.fail("kern/twice", f"{x} is in the groups {d[x]} and {name}")
                d[x] = name
        for (a, b) in ufo.kerning:
            for x in (a, b):
                if x not in ufo and x not in ufo.groups:
                    out.fail("kern/reference", f"kerning refers to {x}, which is neither a glyph nor a group")
        for c, sc in enumerate(todo):
            stored = {PAIRS[p]: value(kind, n, m)[mi] for n, (p, kind) in enumerate(sc)}
            if mi == 0:
                out.state(repr((left, right, m, sc)))
            for l, r in PAIRS:
                want = expected(stored, key_of(CONF[left], l), key_of(CONF[right], r), l, r) or 0
                got = effective(ufo.kerning, g1, g2, f"{N[l]}{c}", f"{N[r]}{c}")
                out.trans()
                if got != want:
                    out.fail(
                        "kern/value",
                        f"left class {CONF[left]}, right class {CONF[right]}, stored {[(N[a] + N[b], v) for (a, b), v in stored.items()]}, "
                        f"master {mi}: kerning of {N[l]} {N[r]}: implementation {got}, reference {want}",
                        ("one", [left, right, m, sc]),
                    )
        out.trace()


def run_one(payload, out):
    left, right, m, sc = payload
    kern_batch(left, right, m, [[tuple(x) for x in sc]], out, [left, right, m, len(sc), None])
    out.case = ("one", payload)


OVER = [["A'"], ["B'"], ["A'", "B"], ["B'", "A"], ["A", "B'", "C"], ["C'", "B"], ["A'", "B", "C"], ["C"], ["B", "C"], ["X'", "A"], ["A'", "X"]]


def run_overlap(payload, out):
    """Kerning classes that share glyphs or key glyphs: every glyph is in one group
    per side, and the kerning only refers to glyphs and groups that exist"""
    first, depth = payload
    glyphs = [gl(name=x, kerning={j: [-10 - 3 * i - j] for j in range(3)}) for i, x in enumerate("ABC")]
    lists = [(first, *r) for d in range(1, depth) for r in product(range(len(OVER)), repeat=d)]
    for lst in lists:
        for fl in product((1, 2, 3), repeat=len(lst)) if len(lst) == 2 else [(3,) * len(lst)]:
            for minimal in (False, True):
                flags = {f"_{i}": ((F1 if f & 1 else 0) | (F2 if f & 2 else 0), 0) for i, f in enumerate(fl)}
                before = [U.s(1277, f"_{i}: " + " ".join(OVER[c])) for i, c in enumerate(lst)]
                before.append((2026, R.num(len(flags)) + b"".join(R.pstr(n) + R.nums(v) for n, v in flags.items())))
                what = f"classes {[OVER[c] for c in lst]}, sides {fl}, minimal={minimal}"
                out.state(what)
                (ufo,), _ = U.convert(U.font(glyphs, before=before), minimal=minimal)
                taken = {}
                for name, members in ufo.groups.items():
                    for x in members:
                        if taken.setdefault((name[:12], x), name) != name or members.count(x) > 1:
                            out.fail("overlap/twice", f"{what}: {x} is in {taken[name[:12], x]} and {name}")
                for pair in ufo.kerning:
                    for x, side in zip(pair, "12"):
                        if x not in ufo and not (x in ufo.groups and x.startswith(f"public.kern{side}.")):
                            out.fail("overlap/reference", f"{what}: kerning refers to {x}, which is no glyph or group of this side")
                if not ufo.kerning:
                    out.fail("overlap/lost", f"{what}: no kerning")
                g1, g2 = ({x: n for n, ms in ufo.groups.items() if n.startswith(f"public.kern{s}.") for x in ms} for s in "12")
                # (glyphs that represent one class, but belong to another one that they
                # don't represent, have no defined kerning)
                own = [{x[0] for k, c in enumerate(lst) for x in OVER[c] if x[-1] == "'" and g.get(x[0]) == f"public.kern{s}._{k}"} for s, g in ((1, g1), (2, g2))]
                bad = [
                    {x[0] for k, c in enumerate(lst) for x in OVER[c] if x[-1] == "'" and fl[k] & s and g.get(x[0]) != f"public.kern{s}._{k}"}
                    for s, g in ((1, g1), (2, g2))
                ]  # fmt: skip
                for i, j in PAIRS:
                    if N[i] in bad[0] - own[0] or N[j] in bad[1] - own[1]:
                        continue
                    got = effective(ufo.kerning, g1, g2, N[i], N[j])
                    if got != -10 - 3 * i - j:
                        out.fail("overlap/value", f"{what}: the stored kerning of {N[i]} {N[j]} is {-10 - 3 * i - j}, in the UFO {got}; {ufo.groups}, {ufo.kerning}")
                out.trans()
    out.trace()


# ------------------------------------------------------------------ groups

CONTENTS = [[], ["A'"], ["A'", "B"], ["A", "B'"], ["A", "B", "C"], ["A'", "X"], ["X'", "A"], ["X'", "Y"], ["A'", "B'", "C"], ["B", "B", "C'"]]
MENU = [(nm, fl, c) for nm, fl in (("_a", 0), ("_a", 1), ("_a", 2), ("_b", 2), ("_b", 3), (".m", None), ("ot", None)) for c in range(len(CONTENTS)) if nm[0] == "_" or c < 9]  # fmt: skip
OPTS = list(product((False, True), repeat=3))


def ref_groups(classes, flags, order, minimal):
    """(kerning groups, other groups, key glyphs) of the classes"""
    seen, kern, other, keys = set(), {}, {}, {}
    taken = {1: set(), 2: set()}
    for name, content in classes:
        if name in seen:
            continue
        seen.add(name)
        ks = [x[:-1] for x in content if x.endswith("'")]
        members = ks + [x for x in content if not x.endswith("'")]
        here = [x for x in members if x in order]
        if minimal:
            members = here
            if not members:
                continue
        ks = [x for x in ks if x in order] if here else ks
        key = ks[0] if ks else None
        if name.startswith("_"):
            for bit, side in ((F1, 1), (F2, 2)):
                if flags.get(name, 0) & bit:
                    final = f"public.kern{side}.{name}"
                    lst = []
                    for x in members:
                        if x not in taken[side]:
                            taken[side].add(x)
                            lst.append(x)
                    if lst:
                        kern[final] = lst
                        if key:
                            keys[final] = key
        else:
            other[name] = members
            if key:
                keys[name] = key
    return kern, other, keys


def run_groups(payload, out):
    first, depth = payload
    if first == len(MENU):
        lists = [[]]
    else:
        lists = [[first]]
        for d in range(1, depth):
            menu = range(len(MENU)) if d == 1 else range(0, len(MENU), 4)
            lists += [[first, *rest] for rest in product(menu, repeat=d)]
    glyphs = [gl(name=x) for x in "ABC"]
    for lst in lists:
        out.case = ("grouplist", lst)
        check_groups(lst, glyphs, out)


def run_grouplist(lst, out):
    check_groups(lst, [gl(name=x) for x in "ABC"], out)


def check_groups(lst, glyphs, out):
    classes = [(MENU[i][0], CONTENTS[MENU[i][2]]) for i in lst]
    flags = {}
    for i in lst:
        nm, fl, _ = MENU[i]
        if fl:
            flags[nm] = (flags.get(nm, 0)) | (F1 if fl & 1 else 0) | (F2 if fl & 2 else 0)
    check_classes(classes, flags, glyphs, "ABC", (lst,), out)


def run_many(n, out):
    """Many classes of all kinds, and classes with many glyphs"""
    names = [f"g{i}" for i in range(n)]
    glyphs = [gl(name=x) for x in names]
    for kinds in ("o", "k", ".", "ok.", "okok."):
        classes, flags = [], {}
        for i, x in enumerate(names):
            k = kinds[i % len(kinds)]
            nm = {"o": f"ot{i}", "k": f"_k{i}", ".": f".m{i}"}[k]
            classes.append((nm, [x + "'"] if k == "k" else [x, names[i - 1]]))
            if k == "k":
                flags[nm] = (F1, F2, F1 | F2)[i % 3]
        check_classes(classes, flags, glyphs, names, (n, kinds), out)
    for nm, fl in (("ot", 0), ("_k", F1 | F2), (".m", 0)):
        check_classes([(nm, names)], {nm: fl} if fl else {}, glyphs, names, (n, nm), out)
        check_classes([(nm, names[:-1] + [names[-1] + "'"])], {nm: fl} if fl else {}, glyphs, names, (n, nm, "key"), out)


def check_classes(classes, flags, glyphs, present, state, out):
    before = [U.s(1277, f"{n}: " + " ".join(c)) for n, c in classes]
    before.append((2026, R.num(len(flags)) + b"".join(R.pstr(n) + R.nums((v | 3, 7)) for n, v in flags.items())))
    data = U.font(glyphs, before=before, after=[U.s(1276, "# code")])
    for minimal, add, keep in OPTS:
        out.state(repr((*state, minimal, add, keep)))
        (ufo,), _ = U.convert(data, minimal=minimal, add_kerning_groups=add, move_groups=not keep)
        what = f"classes {classes}, flags {flags}, minimal={minimal}, add_kerning_groups={add}, keep_groups={keep}"
        kern, other, keys = ref_groups(classes, flags, set(present), minimal)
        groups = dict(kern)
        code = {}
        for n, c in other.items():
            if keep or n.startswith("."):
                groups[n] = c
            else:
                code[n] = c
        if add:
            code.update(kern)
        out.eq({k: list(v) for k, v in ufo.groups.items()}, groups, "groups/plist", what)
        head, sep, rest = ufo.features.text.partition("\n\n")
        got = {}
        for line in head.splitlines():
            n, _, c = line.partition(" = ")
            if not (n.startswith("@") and c.startswith("[") and c.endswith("];")) or n[1:] in got:
                out.fail("groups/syntax", f"{what}: {line!r}")
                continue
            got[n[1:]] = c[1:-2].split()
        if add:
            # classes in the code may share glyphs
            for n in set(got) & set(code):
                if n.startswith("public.kern") and set(code[n]) <= set(got[n]):
                    got[n] = code[n]
            for n in set(got) - set(code):
                if n.startswith("public.kern"):
                    del got[n]
        out.eq(got, code, "groups/features", what)
        if rest.strip() != "# code":
            out.fail("groups/code", f"{what}: {ufo.features.text!r}")
        lib = ufo.lib.get("com.lucasfonts.vfblib.groupKeyGlyphs", {})
        out.eq({k: v for k, v in lib.items() if k in kern or k in other}, keys, "groups/keys", what)
        order = [x for x in ufo.lib.get("public.groupOrder", []) if x in kern or x in other]
        names = []
        for n, _ in classes:
            for x in (f"public.kern1.{n}", f"public.kern2.{n}", n):
                if (x in kern or x in other) and x not in names:
                    names.append(x)
        out.eq(order, names, "groups/order", what)
        out.trans()
    out.trace()


# ------------------------------------------------------------------ features


def run_fea(_, out):
    """Kerning statements of the feature code refer to the renamed groups"""
    names = ["A", "@_A", "@_b1", "@ot", "\\A", "a.alt"]
    values = ["-20;", "<0 0 -20 0>;", "10; # c", "0;#c#d"]
    lines, want = [], []
    for indent, enum, l, r, v in product(("", "  ", "\t"), ("", "enum "), names, names, values):
        lines.append(f"{indent}{enum}pos {l} {r} {v}")
        ll = "@public.kern1." + l[1:] if l.startswith("@_") else l
        rr = "@public.kern2." + r[1:] if r.startswith("@_") else r
        want.append(f"{indent}{enum}pos {ll} {rr} {v}")
    ren = lambda x, side: f"@public.kern{side}.{x[1:]}" if x.startswith("@_") else x
    # any white space, words and several statements on a line
    for start, key, sp1, sp2, sp3, (l, r) in product(
        ("", " \t", "feature kern { ", "lookup x {", "sub a by b; ", "pos @_A @_B -10;", "enum pos @_x a 3; ", "lookupflag 8;\t"),
        ("pos", "position", "enum pos", "enum  pos", "enum\tpos", "enumerate position"),
        (" ", "  ", "\t"), (" ", "  ", "\t"), (" ", " \t "),
        (("@_A", "@_B"), ("@_A", "b"), ("a", "@_B"), ("@ot", "@x"), ("a", "b")),
    ):  # fmt: skip
        first = {"pos @_A @_B -10;": "pos @public.kern1._A @public.kern2._B -10;", "enum pos @_x a 3; ": "enum pos @public.kern1._x a 3; "}
        lines.append(f"{start}{key}{sp1}{l}{sp2}{r}{sp3}-20; # pos @_A @_B 1;")
        want.append(f"{first.get(start, start)}{key}{sp1}{ren(l, 1)}{sp2}{ren(r, 2)}{sp3}-20; # pos @_A @_B 1;")
    for line in ("feature kern {", "} kern;", "", "lookup x {", "# pos @_A @_B 10;", "sub @_A by @_B;", "  sub a @_A' by b;",
                 "@_A = [A B];", "pos @_A 10;", "possible @_A @_B 10;", "ignore pos @_A @_B 10;"):  # fmt: skip
        lines.append(line)
        want.append(line)
    for i, (a, b) in enumerate(zip(lines, want)):
        out.state(a)
        out.trans()
    (ufo,), _ = U.convert(U.font([gl(name="A")], after=[U.s(1276, "\n".join(lines))]))
    got = ufo.features.text.strip("\n").split("\n")
    w = "\n".join(want).strip("\n").split("\n")
    for a, b, orig in zip(got, w, lines):
        if " ".join(a.split()) != " ".join(b.split()):
            out.fail("fea", f"line {orig!r}: implementation {a!r}, reference {b!r}")
    if len(got) != len(w):
        out.fail("fea/lines", f"{len(got)} lines instead of {len(w)}")
    out.trace()


def run_dup(_, out):
    """Kerning of glyphs with repeated names"""
    for names in product("AB", repeat=3):
        for pairs in product(range(3), range(3)):
            for vals in ((-10, -20), (5, 0), (7, 7)):
                glyphs = [gl(name=n) for n in names]
                stored = {}
                for n, (i, v) in enumerate(zip(pairs, vals)):
                    j = (i + n) % 3
                    glyphs[i].setdefault("kerning", {})[j] = [v]
                    stored[i, j] = v
                (ufo,), _ = U.convert(U.font(glyphs))
                order = ufo.lib["public.glyphOrder"]
                out.state(repr((names, pairs, vals)))
                want = {(order[a], order[b]): v for (a, b), v in stored.items() if v}
                out.eq({k: v for k, v in ufo.kerning.items() if v}, want, "dup", f"glyphs {names}, kerning {stored}")
                out.trans()
    out.trace()


KINDS = {"kern": run_kern, "one": run_one, "groups": run_groups, "grouplist": run_grouplist, "fea": run_fea, "dup": run_dup, "many": run_many, "overlap": run_overlap}
