"""UFO fonts as plain data, for comparison."""
import re

from mc import ufo as U


def norm(o, text=False):
    """Plain data without the differences that file formats make"""
    if isinstance(o, dict):
        return {str(k): norm(v, text) for k, v in o.items()}
    if isinstance(o, (list, tuple, set, frozenset)):
        return [norm(x, text) for x in o]
    if isinstance(o, bool) or o is None:
        return o
    if isinstance(o, int):
        return int(o)
    if isinstance(o, float):
        return int(o) if o == int(o) else round(o, 9)
    if isinstance(o, bytes):
        return b"".join(o.split())
    if isinstance(o, str):
        if re.fullmatch(r"\d[\d.]*(,\d[\d.]*){3}", o):
            # Colors
            return [norm(float(x)) for x in o.split(",")]
        # Line ends and indentation
        return "\n".join(x.strip() for x in o.replace("\r\n", "\n").split("\n")).strip() if text else o
    if hasattr(o, "__attrs_attrs__"):
        d = {}
        for a in o.__attrs_attrs__:
            v = getattr(o, a.name.lstrip("_"), None)
            if v is not None:
                d[a.name.lstrip("_")] = norm(v, text)
        return d
    return str(o)


def flat(f, text=True):
    d = {}
    for k, v in norm(f.info, text).items():
        if v not in ([], "", None):
            d[f"info {k}"] = v
    d["groups"] = norm(dict(f.groups), text)
    d["kerning"] = {f"{a} {b}": norm(v) for (a, b), v in f.kerning.items()}
    d["features"] = norm(f.features.text, text)
    d["lib"] = norm(dict(f.lib), text)
    d["layers"] = [[x.name, x is f.layers.defaultLayer] for x in f.layers]
    for x in f.layers:
        d[f"layer {x.name}"] = [sorted(x.keys()), norm(dict(x.lib), text)]
        for g in x:
            contours, comps = U.ufo_points(g)
            n = f"{x.name}/{g.name} "
            d[n + "metrics"] = norm([g.width, g.height])
            d[n + "unicodes"] = list(g.unicodes)
            d[n + "note"] = norm(g.note, text)
            d[n + "lib"] = norm(dict(g.lib), text)
            d[n + "anchors"] = norm(list(g.anchors))
            d[n + "guidelines"] = norm(list(g.guidelines))
            d[n + "contours"] = norm(contours)
            d[n + "components"] = norm(comps)
    return d


def changed(a, b):
    """Differences, for messages"""
    res = {}
    for k in sorted(set(a) | set(b), key=str):
        x, y = a.get(k), b.get(k)
        if x != y:
            if isinstance(x, dict) and isinstance(y, dict):
                for q, v in changed(x, y).items():
                    res[f"{k} > {q}"] = v
            else:
                res[k] = (x, y)
    return res
