"""The XML an object has to be written as (concrete runs)."""
from __future__ import annotations

from .base import CLASSES, nonempty, qname, rows_of, short, write_simple


def num(v, precision):
    return str(v) if precision is None else f"{v:.{precision}f}"


def write(S, o, precision=None, verbosity="normal"):
    q = qname(o)
    out = {"text": None, "attrs": {}, "children": []}
    for r in rows_of(q):
        if r.kind == "obj":
            c = getattr(o, r.attr, None)
            if nonempty(c):
                out["children"].append(write(S, c, precision, verbosity))
        elif r.kind == "objlist":
            for c in getattr(o, r.attr, None) or ():
                if nonempty(c):
                    out["children"].append(write(S, c, precision, verbosity))
        elif r.kind == "coordinates":
            if o.coords:
                out["text"] = " ".join(",".join(num(c, precision) for c in p) for p in o.coords)
        elif r.kind == "dtlist":
            for i in o.track_items:
                out["children"].append(S.el(o.name_spaces["kml"] + "when", text=str(i.when)))
        elif r.kind == "coordlist":
            if r.attr == "coords":
                for i in o.track_items:
                    out["children"].append(S.el(o.ns + "coord", text=" ".join(num(c, precision) for c in i.coord.coords[0])))
            elif any(i.angle for i in o.track_items):
                for i in o.track_items:
                    a = (i.angle.heading, i.angle.tilt, i.angle.roll) if i.angle else (0.0, 0.0, 0.0)
                    out["children"].append(S.el(o.ns + "angles", text=" ".join(num(c, precision) for c in a)))
        else:
            write_simple(S, r, getattr(o, r.attr, None), o.ns, o.name_spaces, verbosity, out)
    attrs = dict(out["attrs"])
    tag = o.ns + CLASSES[q]["tag"]
    if short(q) == "kml.KML" and o.ns == "":
        attrs["xmlns"] = "http://www.opengis.net/kml/2.2"
    return S.el(tag, text=out["text"], attrs=attrs, children=out["children"])


def regroup(o):
    """The same object with every list of mixed kinds grouped by kind (what a
    reader that collects kind by kind gives)."""
    for r in rows_of(qname(o)):
        if r.kind == "obj":
            c = getattr(o, r.attr, None)
            if c is not None:
                regroup(c)
        elif r.kind == "objlist":
            l = getattr(o, r.attr)
            new = [c for k in r.classes for c in l if qname(c) == k]
            assert len(new) == len(l)
            l[:] = new
            for c in l:
                regroup(c)
    return o
