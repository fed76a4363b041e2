"""One mapped attribute of one class: stored, written, read back.

Contract of every (class, attribute) pair, for all values of the attribute,
all three verbosity levels, several precisions and namespace configurations.
"""
from __future__ import annotations

import itertools

from vf.harness import Harness, REGISTRY

from . import base, compare
from .base import (CLASSES, NSMODES, PUBLIC, VERBATIM, effective, own_ns, qname, required, resolve, rows_of, short,
                   spaces, stored, value, write_simple)

LEVELS = ("terse", "normal", "verbose")
SKIP = {("fastkml.gx.Track", "whens"), ("fastkml.gx.Track", "coords"), ("fastkml.gx.Track", "angles"),
        ("fastkml.geometry.Coordinates", "coords")}
FILTERED = {("fastkml.data.ExtendedData", "elements"), ("fastkml.gx.MultiTrack", "tracks")}


def level(name):
    from fastkml.enums import Verbosity
    return Verbosity[name]


def kids_of(S, row, mode, name, cs=None):
    """An arbitrary nested object of one of the row's classes."""
    cs = cs or list(row.classes)
    return S.child(name, S.choice(f"{name}.class", cs), mode, solid=S.prop == "C01")


def draw(S, row, mode, name="v"):
    if row.kind == "obj":
        return kids_of(S, row, mode, name)
    if row.kind == "objlist":
        cs = list(row.classes)
        if S.symbolic and S.prop == "C01" and len(cs) > 2:
            # relative order is a matter of two kinds at a time
            cs = list(S.choice(f"{name}.kinds", list(itertools.combinations(cs, 2))))
        return S.seq(name, lambda n: kids_of(S, row, mode, n, cs),
                     tags={own_ns(c, mode) + CLASSES[c]["tag"] for c in cs})
    return value(S, name, row)


def expected(S, q, row, v, mode, precision, verbosity, extra=()):
    """The element an object with only this attribute set has to be written as."""
    out = {"text": None, "attrs": {}, "children": []}
    for r in rows_of(q):
        if r.attr == row.attr:
            if r.kind == "obj":
                if v is not None and S.nonempty(v):
                    out["children"].append(S.child_el(v, precision, verbosity))
            elif r.kind == "objlist":
                out["children"] = S.chain(out["children"],
                                          S.map(lambda c: S.child_el(c, precision, verbosity),
                                                S.filter(S.nonempty, v if v is not None else [])))
            else:
                write_simple(S, r, v, own_ns(q, mode), spaces(mode), verbosity, out)
        elif r.simple and r.kind not in ("coordinates", "coordlist", "dtlist"):
            w = required(q).get(r.attr)
            write_simple(S, r, w, own_ns(q, mode), spaces(mode), verbosity, out)
    attrs = dict(out["attrs"])
    if short(q) == "kml.KML" and own_ns(q, mode) == "":
        attrs["xmlns"] = "http://www.opengis.net/kml/2.2"
    return S.el(own_ns(q, mode) + CLASSES[q]["tag"], text=out["text"], attrs=attrs, children=out["children"])


def modes_for(S):
    if S.prop == "C07":
        return list(NSMODES)
    if S.prop in ("C01",):
        return ["default", "mapped"]
    return ["default"]


def attr(S):
    q, row = S.params
    cls = resolve(q)
    mode = S.choice("ns", modes_for(S))
    v = draw(S, row, mode)
    if (q, row.attr) == ("fastkml.data.Schema", "id"):
        S.assume(S.ne(S.strip(v), ""))
    kw = {**required(q), **NSMODES[mode], row.attr: v}
    obj, err = S.run(cls, **kw)
    S.check("C01 C02 C04 C07 C17 C18 C19", "constructor accepts the value", err is None, lambda: repr(err))
    if err is not None:
        return
    want = v
    if row.simple:
        want = stored(S, row, v, q)
    elif (q, row.attr) in FILTERED:
        want = S.filter(S.nonempty, v)
    S.check("C17", f"{row.attr} is what was passed", S.eq(getattr(obj, row.attr), want))
    S.check("C07 C17", "namespace of the object", S.eq(obj.ns, own_ns(q, mode)))
    levels = LEVELS if S.prop in (None, "C02", "C16") else ("normal",)
    precisions = (None, 3) if S.prop in (None, "C02", "C04", "C18", "C19") and not (
        S.prop == "C02" and row.kind not in ("obj", "objlist")) else (None,)
    snap = S.snapshot(obj, obj.name_spaces)
    if S.wants("C02 C04 C07 C16 C18 C19"):
        for verb in levels:
            for p in precisions:
                e, err = S.run(obj.etree_element, precision=p, verbosity=level(verb))
                S.check("C02 C04 C07 C18 C19", f"writing at {verb}, precision {p}, succeeds", err is None, lambda: repr(err))
                if err is not None:
                    return
                with S.side("spec"):
                    x = expected(S, q, row, want, mode, p, verb)
                S.check("C02 C04 C07 C18 C19", f"XML written at {verb}, precision {p}", S.tree_eq(e, x),
                        lambda: S.show(e, x))
    if S.wants("C16"):
        for op, f in (("to_string", obj.to_string), ("repr", lambda: repr(obj)), ("==", lambda: obj == obj),
                      ("bool", lambda: bool(obj))):
            if S.symbolic and op == "repr":
                f = obj.__repr__
            S.run(f)
        S.check("C16", "writing, printing and comparing leave the object unchanged", S.same(snap))
    if S.wants("C01 C10") and S.prop != "C10":
        round_trip(S, q, row, cls, obj, want, mode)


def round_trip(S, q, row, cls, obj, want, mode):
    text, err = S.run(obj.to_string)
    S.check("C01", "writing succeeds", err is None, lambda: repr(err))
    if err is not None:
        return
    sp = NSMODES[mode].get("name_spaces")
    back, err = S.run(cls.from_string, text, name_spaces=sp)
    S.check("C01", "reading what was written succeeds", err is None, lambda: repr(err))
    if err is not None:
        return
    S.check("C01", "same class", type(back) is type(obj))
    S.check("C01", f"{row.attr} survives", compare.values(S, row, getattr(back, row.attr), want), lambda: text)
    S.check("C01", "every attribute agrees with the original", compare.alike(S, back, obj), lambda: text)
    if row.kind != "objlist":
        S.check("C01", "object equals the original", S.pyeq(back, S.regrouped(obj)), lambda: text)


def setup():
    for q in PUBLIC:
        for row in rows_of(q):
            if (q, row.attr) in SKIP:
                continue
            REGISTRY.append(Harness(attr, f"attr:{short(q)}.{row.attr}", "C01 C02 C04 C07 C16 C17 C18 C19".split(), (),
                                    params=(q, row)))


setup()
