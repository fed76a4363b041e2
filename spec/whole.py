"""Whole objects: equality, representation, emptiness, order of parts, round
trips, purity, copying of list arguments."""
from __future__ import annotations

import copy
import datetime
import itertools

from vf.harness import Harness, REGISTRY, Skip

from . import compare, gen, oracle
from .attrs import FILTERED, LEVELS, SKIP, level
from .base import (CLASSES, NSMODES, PUBLIC, STD, effective, nonempty, own_ns, qname, required, resolve, row_of, rows_of,
                   short, spaces, stored, value, write_simple)

TRACK = "fastkml.gx.Track"
COORDS = "fastkml.geometry.Coordinates"


# -- arbitrary objects with every attribute set ------------------------------


def some(S, name, row, q, mode="default", pick=None):
    """An arbitrary value of a row; enumerations are fixed unless picked."""
    k = row.kind
    if k == "obj":
        c = row.classes[0] if pick is None else S.choice(f"{name}.class", list(row.classes))
        return S.child(name, c, mode, solid=True)
    if k == "objlist":
        c = row.classes[0]
        return S.seq(name, lambda n: S.child(n, c, mode, solid=True), minlen=1)
    if k in ("enum", "aenum") and pick is None and S.symbolic:
        return list(row.enum)[-1]
    if k == "coordinates":
        return S.seq(name, lambda n: (S.real(f"{n}.x"), S.real(f"{n}.y")), pytype=tuple)
    if k in ("text", "ntext", "atext"):
        return S.text(name, clean=True, nonempty=True)
    return value(S, name, row)


def mapped(q):
    return [r for r in rows_of(q) if (q, r.attr) not in SKIP or q == COORDS]


def filled(S, q, mode="default", skip=(), pre="a"):
    kw = {r.attr: some(S, f"{pre}.{r.attr}", r, q, mode) for r in mapped(q) if r.attr not in skip}
    if q == "fastkml.data.Schema":
        kw.setdefault("id", "i")
    return {**kw, **NSMODES[mode]}


# -- equality ---------------------------------------------------------------


def equality(S):
    """C10: equal exactly when the attribute agrees, everything else being equal."""
    q, row = S.params
    cls = resolve(q)
    kw = filled(S, q)
    how = S.choice("how", ["same", "other", "absent", "ns", "spaces", "standard"])
    if how in ("absent", "ns", "spaces") and (q, row.attr) == ("fastkml.data.Schema", "id") and how == "absent":
        return
    a, err = S.run(cls, **kw)
    S.check("C10", "constructor accepts the values", err is None, lambda: repr(err))
    if err is not None:
        return
    kw2 = dict(kw)
    want = True
    if how == "other":
        if row.kind == "objlist":
            kw2[row.attr] = S.chain(kw[row.attr], [S.child("extra", row.classes[0], solid=True)])
        elif row.kind == "coordinates":
            kw2[row.attr] = tuple(kw[row.attr]) + ((1.0, 2.0),) if not S.symbolic else S.chain(kw[row.attr], [(1.0, 2.0)])
        else:
            kw2[row.attr] = some(S, "b", row, q, pick=True)
    elif how == "absent":
        kw2.pop(row.attr)
    elif how == "ns":
        kw2["ns"] = "{urn:other}"
        want = False
    elif how == "spaces":
        kw2["name_spaces"] = {S.choice("prefix", ["foo", "gx"]): "{urn:foo}"}
        want = False
    elif how == "standard":
        kw2["name_spaces"] = dict(STD)
    b, err = S.run(cls, **kw2)
    S.check("C10", "constructor accepts the other values", err is None, lambda: repr(err))
    if err is not None:
        return
    if how in ("other", "absent"):
        if row.kind in ("objlist", "coordinates"):
            want = how == "absent" and not S.yes(S.truth(kw[row.attr]))
        elif row.kind == "obj":
            if how == "absent":
                want = False
            else:
                want = False if S.symbolic else compare.alike(S, kw[row.attr], kw2[row.attr])
                if want is False and not S.symbolic and short(q).startswith("geometry.") and shape_only(kw[row.attr], kw2[row.attr]):
                    return
        else:
            want = S.pyeq(getattr(a, row.attr), getattr(b, row.attr))
    for x, y, nm in ((a, b, "a == b"), (b, a, "b == a")):
        r, err = S.run(lambda: _eq(S, x, y))
        S.check("C10", f"{nm} gives an answer", err is None, lambda: repr(err))
        if err is not None:
            return
        if want is not None:
            S.check("C10", f"{nm} exactly when {row.attr} agrees" if how in ("same", "other", "absent") else f"{nm}: exactly when the namespaces agree", S.iff(r, want),
                    lambda: (how, repr(a), repr(b), r, want))


def additional(S):
    """C10: additional attributes count like the declared ones, on either side and in any order."""
    q = S.params
    cls = resolve(q)
    kw = {**required(q), **({"id": S.text("id", clean=True, nonempty=True)} if q.startswith("fastkml.geometry.") else {})}
    how = S.choice("how", ["both", "one", "order", "more"])
    kind = S.choice("kind", ["text", "number", "zero", "false", "empty"])
    v = {"text": lambda: S.text("v"), "number": lambda: S.real("v"), "zero": lambda: 0, "false": lambda: False, "empty": lambda: ""}[kind]()
    w = S.real("w") if kind == "number" else S.text("w")
    if how == "both":
        left, right, want = {"vf_extra": v}, {"vf_extra": w}, S.eq(v, w)
    elif how == "one":
        left, right, want = {"vf_extra": v}, {}, False
    elif how == "more":
        left, right, want = {"vf_extra": v, "vf_more": w}, {"vf_extra": v}, False
    else:
        left, right, want = {"vf_extra": v, "vf_more": w}, {"vf_more": w, "vf_extra": v}, True
    a, err = S.run(cls, **kw, **left)
    S.check("C10", "the constructor takes additional attributes", err is None, lambda: repr(err))
    if err is not None:
        return
    b, err = S.run(cls, **kw, **right)
    S.check("C10", "the constructor takes the other attributes", err is None, lambda: repr(err))
    if err is not None:
        return
    for x, y, nm in ((a, b, "a == b"), (b, a, "b == a")):
        r, err = S.run(lambda: _eq(S, x, y))
        S.check("C10", f"{nm} gives an answer", err is None, lambda: (how, repr(err)))
        if err is not None:
            return
        S.check("C10", f"{nm} exactly when the additional attributes agree", S.iff(r, want), lambda: (how, repr(a), repr(b), r, want))


def shape_only(x, y):
    """Geometries compare by coordinates: details of nested parts do not count."""
    return getattr(x, "geometry", 0) == getattr(y, "geometry", 1) or (qname(x) == COORDS)


def _eq(S, x, y):
    if not S.symbolic:
        return x == y
    r = type(x).__eq__(x, y)
    return r


OTHERS = [None, 0, 1, "", "x", 2.5, (), [], {}]


def strangers(S):
    """C10: other kinds and unrelated values are unequal, without an error."""
    q = S.params
    cls = resolve(q)
    kinds = [p for p in PUBLIC]
    a = cls(**required(q))
    for p in kinds:
        b = resolve(p)(**required(p))
        S.check("C10", f"empty {short(q)} equals empty {short(p)} exactly when same class", (a == b) == (p == q), lambda: (a, b))
        S.check("C10", "symmetric", (a == b) == (b == a) and (a != b) == (not a == b))
    for x in [*OTHERS, object(), cls, type("Fake", (), dict(vars(a)))()]:
        for f in (lambda: a == x, lambda: x == a):
            r, err = S.run(f)
            S.check("C10", "comparing with an unrelated value is false", err is None and r is False, lambda: (x, r, err))
        r, err = S.run(lambda: a != x)
        S.check("C10", "inequality with an unrelated value", err is None and r is True)


def kin(S):
    """C10: an object with any attribute values never equals an object of another class
    with the same ones, nor an unrelated value."""
    q = S.params
    kw = filled(S, q)
    o, err = S.run(resolve(q), **kw)
    S.check("C10", "constructor accepts the values", err is None, lambda: repr(err))
    if err is not None:
        return
    p = S.choice("p", [p for p in PUBLIC if p != q] + [None])
    if p is None:
        x = S.choice("x", [*OTHERS, object, resolve(q)])
        what = "an unrelated value"
    else:
        names = {r.attr for r in rows_of(p)}
        x, err = S.run(resolve(p), **{**required(p), **{k: v for k, v in kw.items() if k in names}})
        if err is not None:
            return
        what = f"a {short(p)}"
    for f, nm in ((lambda: o == x, "=="), (lambda: x == o, "== from the other side")):
        r, err = S.run(f)
        S.check("C10", f"comparing with {what} gives an answer", err is None, lambda: repr(err))
        S.check("C10", f"{short(q)} {nm} {what} is false", S.neg(S.truth(r)), lambda: (o, x, r))
    r, err = S.run(lambda: o != x)
    S.check("C10", f"{short(q)} != {what}", S.conj(err is None, S.truth(r)), lambda: (o, x, r))


def cousins(S):
    """C10: same attributes, different class."""
    q = S.params
    cls = resolve(q)
    o = gen.obj(S, "o", q, depth=1)
    kw = {r.attr: getattr(o, r.attr, None) for r in rows_of(q)}
    for p in PUBLIC:
        if p == q or not set(kw) & {r.attr for r in rows_of(p)}:
            continue
        names = {r.attr for r in rows_of(p)}
        b, err = S.run(resolve(p), **{**required(p), **{k: v for k, v in kw.items() if k in names and v is not None}})
        if err is not None:
            continue
        r1, e1 = S.run(lambda: o == b)
        r2, e2 = S.run(lambda: b == o)
        S.check("C10", f"{short(q)} never equals a {short(p)}", e1 is None and e2 is None and r1 is False and r2 is False,
                lambda: (o, b, r1, r2, e1, e2))
    c = rebuild(o)
    S.check("C10", "equals a copy built from the same values", o == c and c == o and not o != c, lambda: (o, c))


def rebuild(o):
    """A new object with equal values, sharing nothing mutable."""
    if isinstance(o, list):
        return [rebuild(x) for x in o]
    if isinstance(o, tuple) and not hasattr(o, "_fields"):
        return tuple(rebuild(x) for x in o)
    q = qname(o)
    if q == "fastkml.times.KmlDateTime":
        return type(o)(o.dt, o.resolution)
    if q not in CLASSES:
        return o
    kw = {"ns": o.ns, "name_spaces": dict(o.name_spaces)}
    for r in rows_of(q):
        if (q, r.attr) in SKIP and q != COORDS:
            continue
        v = getattr(o, r.attr, None)
        if v is not None and not (v == [] and r.kind == "objlist"):
            kw[r.attr] = rebuild(v)
    if q == TRACK:
        kw["track_items"] = [type(i)(rebuild(i.when), i.coord, i.angle) for i in o.track_items]
    return resolve(q)(**kw)


# -- representation -----------------------------------------------------------


def scope():
    """The library's names."""
    import fastkml
    import pygeoif
    import pygeoif.geometry as g
    from dateutil.tz import tzfile, tzoffset, tzutc, tzlocal
    from fastkml import enums, gx, times
    env = {"fastkml": fastkml, "datetime": datetime, "tzutc": tzutc, "tzfile": tzfile, "tzoffset": tzoffset, "tzlocal": tzlocal,
           "pygeoif": pygeoif}
    for n in ("Point", "Polygon", "LineString", "LinearRing", "MultiPoint", "MultiLineString", "MultiPolygon", "GeometryCollection"):
        env[n] = getattr(g, n)
    for n in dir(enums):
        if isinstance(getattr(enums, n), type):
            env[n] = getattr(enums, n)
    env.update(TrackItem=gx.TrackItem, Angle=gx.Angle, KmlDateTime=times.KmlDateTime, nan=float("nan"), inf=float("inf"))
    return env


def representation(S):
    """C11: eval(repr(o)) == o, for all values of the attributes."""
    q = S.params
    cls = resolve(q)
    rows = mapped(q)
    variant = S.choice("variant", ["all", "none"] + [("extra", k) for k in ("text", "number", "zero", "false")] + [("without", r.attr) for r in rows] + [("only", r.attr) for r in rows])
    names = {r.attr for r in rows}
    if variant == "none":
        keep = set()
    elif variant == "all":
        keep = names
    elif variant[0] == "extra":
        keep = set()
    elif variant[0] == "without":
        keep = names - {variant[1]}
    else:
        keep = {variant[1]}
    mode = S.choice("mode", ["default", "mapped"])
    kw = {**required(q), **filled(S, q, mode, skip=names - keep)}
    more = {}
    if variant[0] == "extra":
        more = {"vf_extra": {"text": lambda: S.text("extra"), "number": lambda: S.real("extra"), "zero": lambda: 0, "false": lambda: False}[variant[1]]()}
    o, err = S.run(cls, **kw, **more)
    S.check("C11", "constructor accepts the values", err is None, lambda: repr(err))
    if err is not None:
        return
    text, err = S.run(lambda: S.repr(o))
    S.check("C11", "repr succeeds", err is None, lambda: repr(err))
    if err is not None:
        return
    back, err = S.run(lambda: S.eval(text, scope()))
    S.check("C11", "the representation is an expression", err is None, lambda: (text, repr(err)))
    if err is not None:
        return
    S.check("C11", "it gives an object of the same class", type(back) is type(o), lambda: text)
    S.check("C11", "equal to the original", S.truth(_eq(S, back, o)), lambda: text)
    S.check("C11", "with the same attributes", shaped_alike(S, back, o), lambda: text)
    for k, v in more.items():
        S.check("C11", "with the same additional attribute", S.eq(getattr(back, k, None), v), lambda: text)


def shaped_alike(S, a, b):
    """As compare.alike; ids and namespaces inside geometries are not part of a
    representation that shows the geometry."""
    q = qname(b)
    rs = [S.eq(a.ns, b.ns), S.eq(dict(a.name_spaces), dict(b.name_spaces))]
    for r in mapped(q):
        x, y = getattr(a, r.attr, None), getattr(b, r.attr, None)
        if q in ("fastkml.geometry.LineString", "fastkml.geometry.LinearRing", "fastkml.geometry.Polygon") and r.kind in ("obj", "objlist"):
            continue
        if r.kind in ("obj", "objlist") and not S.symbolic:
            rs.append(x == y)
        else:
            rs.append(S.eq(x, y))
    return S.conj(*rs)


def deep_repr(S):
    q = S.params
    o = gen.obj(S, "o", q, mode=S.choice("mode", ["default", "mapped", "none"]), depth=3)
    text, err = S.run(lambda: repr(o))
    S.check("C11", "repr succeeds", err is None, lambda: repr(err))
    back, err = S.run(lambda: eval(text, scope()))  # noqa: S307
    S.check("C11", "the representation is an expression", err is None, lambda: (text, repr(err)))
    S.check("C11", "equal to the original", type(back) is type(o) and back == o and o == back, lambda: text)
    S.check("C11", "the copy has the same representation", repr(back) == text, lambda: (text, repr(back)))


# -- emptiness ------------------------------------------------------------------


def emptiness(S):
    """C19: which combinations of attributes count as empty."""
    q = S.params
    cls = resolve(q)
    kw = {}
    for r in mapped(q):
        def mk(r=r):
            if r.kind == "obj":
                return S.child(f"a.{r.attr}", r.classes[0])
            if r.kind == "objlist":
                return S.seq(f"a.{r.attr}", lambda n: S.child(n, r.classes[0]))
            return some(S, f"a.{r.attr}", r, q)
        kw[r.attr] = S.lazy(f"a.{r.attr}", mk) if r.kind not in ("objlist", "coordinates") else mk()
    kw.update(required(q))
    o, err = S.run(cls, **kw)
    S.check("C19", "constructor accepts the values", err is None, lambda: repr(err))
    if err is not None:
        return
    r, err = S.run(lambda: S.truth(o))
    S.check("C19", "has a truth value", err is None, lambda: repr(err))
    if err is not None:
        return
    with S.side("spec"):
        want = nonempty(o)
    S.check("C19", "empty exactly when what the element requires is missing", S.iff(r, S.truth(want)), lambda: (repr(o), r))


def emptiness_any(S):
    """C19 on random objects of any depth, emptied in places."""
    q = S.params
    o = gen.obj(S, "o", q, depth=2, solid=S.bool("solid"))
    rs = rows_of(q)
    for k in range(S.int("drops", 0, 3)):
        r = S.choice(f"drop{k}", rs)
        if (q, r.attr) in SKIP and q != COORDS or (q, r.attr) == ("fastkml.data.Schema", "id"):
            continue
        if r.kind == "objlist":
            getattr(o, r.attr).clear()
        elif q == COORDS:
            o.coords = ()
        else:
            setattr(o, r.attr, None)
    r, err = S.run(lambda: bool(o))
    S.check("C19", "has a truth value", err is None, lambda: (repr(o), err))
    S.check("C19", "empty exactly when what the element requires is missing", r == bool(nonempty(o)), lambda: (repr(o), r))


# -- writing and reading whole objects --------------------------------------------


def whole_write(S):
    """The XML of a random object, at every level, against the reference writer."""
    q = S.params
    mode = S.choice("mode", list(NSMODES))
    o = gen.obj(S, "o", q, mode=mode, depth=2, solid=S.bool("solid"))
    before = S.snapshot(o)
    p = S.choice("precision", [None, 0, 1, 3, 7])
    for verb in LEVELS:
        e, err = S.run(o.etree_element, precision=p, verbosity=level(verb))
        S.check("C02 C04 C05 C07 C18 C19", "writing succeeds", err is None, lambda: (repr(o), err))
        x = oracle.write(S, o, p, verb)
        S.check("C02 C04 C05 C07 C18 C19", f"XML written at {verb}", S.tree_eq(e, x), lambda: S.show(e, x))
    S.check("C16", "writing leaves the object unchanged", S.same(before))


def whole_trip(S):
    """C01: write, read, compare; write again."""
    q = S.params
    mode = S.choice("mode", ["default", "default", "mapped", "extra"])
    o = gen.obj(S, "o", q, mode=mode, depth=3)
    cls = type(o)
    sp = NSMODES[mode].get("name_spaces")
    verb = S.choice("verbosity", LEVELS)
    pretty = S.bool("pretty")
    text, err = S.run(o.to_string, verbosity=level(verb), prettyprint=pretty)
    S.check("C01", "writing succeeds", err is None, lambda: (repr(o), err))
    back, err = S.run(cls.from_string, text, name_spaces=sp)
    S.check("C01", "reading what was written succeeds", err is None, lambda: (text, err))
    oracle.regroup(o)
    if verb == "normal":
        S.check("C01", "every attribute survives", compare.alike(S, back, o), lambda: text)
        S.check("C01", "equal to the original", back == o and o == back, lambda: (text, repr(o), repr(back)))
        t2 = back.to_string(verbosity=level(verb), prettyprint=pretty)
        S.check("C01", "writing again gives the same text", t2 == o.to_string(verbosity=level(verb), prettyprint=pretty), lambda: (text, t2))


def expect(S, q, vals, ns, sp, precision, verbosity):
    """The element an object with these attribute values has to be written as."""
    out = {"text": None, "attrs": {}, "children": []}
    for r in rows_of(q):
        v = vals.get(r.attr)
        if r.kind == "obj":
            if v is not None and S.nonempty(v):
                out["children"] = S.chain(out["children"], [S.child_el(v, precision, verbosity)])
        elif r.kind == "objlist":
            if v is not None:
                out["children"] = S.chain(out["children"], S.map(lambda c: S.child_el(c, precision, verbosity), S.filter(S.nonempty, v)))
        else:
            one = {"text": None, "attrs": {}, "children": []}
            write_simple(S, r, v, ns, sp, verbosity, one)
            out["text"] = one["text"] if one["text"] is not None else out["text"]
            out["attrs"].update(one["attrs"])
            out["children"] = S.chain(out["children"], one["children"])
    attrs = dict(out["attrs"])
    if short(q) == "kml.KML" and ns == "":
        attrs["xmlns"] = "http://www.opengis.net/kml/2.2"
    return S.el(ns + CLASSES[q]["tag"], text=out["text"], attrs=attrs, children=out["children"])


def together(S):
    """All attributes at once, all but one, and all with one at its default."""
    q = S.params
    cls = resolve(q)
    rows = mapped(q)
    mode = S.choice("mode", ["default", "mapped"]) if S.prop == "C07" else "default"
    kw = filled(S, q, mode)
    if S.symbolic:
        flag = S.choice("flag", [True, False])
        for r in rows:
            if r.kind == "bool":
                kw[r.attr] = flag if r.default is None else not r.default
    vals = {r.attr: kw[r.attr] for r in rows}
    ways = [("all", None), *[("without", r) for r in rows if r.attr not in required(q)]]
    if S.prop == "C02":
        ways += [("default", r) for r in rows if r.default is not None]
    how, row = S.choice("how", ways)
    if how == "without":
        del kw[row.attr]
        vals[row.attr] = None
    elif how == "default":
        kw[row.attr] = vals[row.attr] = row.default
    for r in rows:
        # values at their default are a case of their own
        if r.default is not None and vals[r.attr] is not None and not (how == "default" and r is row):
            S.assume(S.ne(vals[r.attr], r.default))
    o, err = S.run(cls, **kw)
    S.check("C01 C02 C04 C07 C18 C19", "constructor accepts the values", err is None, lambda: repr(err))
    if err is not None:
        return
    if vals.get("id", 0) is None and q != "fastkml.data.Schema":
        vals["id"] = ""
    if vals.get("target_id", 0) is None:
        vals["target_id"] = ""
    before = S.snapshot(o, o.name_spaces)
    for verb in LEVELS if S.prop in (None, "C02", "C16") else ("normal",):
        for p in (None, 3) if S.prop in ("C04", "C18") else (None,):
            e, err = S.run(o.etree_element, precision=p, verbosity=level(verb))
            S.check("C02 C04 C07 C18 C19", f"writing at {verb}, precision {p}, succeeds", err is None, lambda: (repr(o), err))
            if err is not None:
                return
            if S.wants("C02 C04 C07 C18 C19"):
                with S.side("spec"):
                    x = expect(S, q, vals, own_ns(q, mode), spaces(mode), p, verb)
                S.check("C02 C04 C07 C18 C19", f"XML written at {verb}, precision {p}", S.tree_eq(e, x), lambda: S.show(e, x))
            if S.prop == "C16":
                e2, err = S.run(o.etree_element, precision=p, verbosity=level(verb))
                S.check("C16", "writing again gives the same", err is None and S.yes(S.tree_eq(e, e2)), lambda: S.show(e, e2))
    S.check("C16", "writing changes nothing", S.same(before))
    if S.prop == "C18":
        o2, err = S.run(cls, **required(q))
        for r in reversed(rows):
            if r.attr in kw and r.attr not in required(q):
                setattr(o2, r.attr, getattr(o, r.attr))
        e2, err = S.run(o2.etree_element)
        S.check("C18", "whatever the order of assignment", err is None and S.yes(S.tree_eq(e2, expect(S, q, {**vals, **required(q)} , own_ns(q, mode), spaces(mode), None, "normal"))),
                lambda: repr(err))
    if S.prop in (None, "C19") and how == "without" and row.kind not in ("obj", "objlist", "coordinates"):
        # set after construction: the same as given to the constructor
        late = some(S, "late", row, q)
        if row.default is not None:
            S.assume(S.ne(late, row.default))
        steps = [("a value", late), ("nothing", None)]
        if row.kind in ("text", "ntext", "atext"):
            steps.append(("the empty text", ""))
        for what, v in steps:
            setattr(o, row.attr, v)
            e, err = S.run(o.etree_element)
            with S.side("spec"):
                x = expect(S, q, {**vals, row.attr: v or None if isinstance(v, str) else v}, own_ns(q, mode), spaces(mode), None, "normal")
            S.check("C19", f"{what} set after construction", err is None and S.yes(S.tree_eq(e, x)), lambda: repr(err) if err else S.show(e, x))
    if S.wants("C01"):
        text, err = S.run(o.to_string)
        S.check("C01", "writing succeeds", err is None, lambda: repr(err))
        if err is not None:
            return
        back, err = S.run(cls.from_string, text)
        S.check("C01", "reading what was written succeeds", err is None, lambda: (text, err))
        if err is not None:
            return
        S.check("C01", "same class", type(back) is type(o))
        S.check("C01", "every attribute agrees with the original", compare.alike(S, back, o), lambda: text)


def assigned(S):
    """C18: the order of assignment does not matter."""
    q = S.params
    o = gen.obj(S, "o", q, depth=1)
    cls = type(o)
    rs = [r for r in mapped(q) if r.attr not in required(q)]
    o2 = cls(**required(q)) if q != "fastkml.data.Schema" else cls(id=o.id)
    S.src.r.shuffle(rs) if hasattr(S.src, "r") else None
    for r in rs:
        setattr(o2, r.attr, getattr(o, r.attr, None))
    if q == TRACK:
        o2.track_items = o.track_items
    for verb in LEVELS:
        a, b = o.to_string(verbosity=level(verb)), o2.to_string(verbosity=level(verb))
        S.check("C18", "same XML whatever the order of assignment", a == b, lambda: (a, b))


# -- lists --------------------------------------------------------------------


def lists(S):
    """C17: list arguments are copied in order; every object has its own list."""
    q, row = S.params
    cls = resolve(q)
    kind = S.choice("iterable", ["list", "tuple", "generator", "iterator"])
    if True:
        n = S.choice("n", [0, 1, 2, 3, 5])
        items = [gen.obj(S, f"c{k}", S.choice(f"k{k}", list(row.classes)), depth=0, solid=True) for k in range(n)]
    arg = {"list": list, "tuple": tuple, "generator": lambda l: (x for x in l), "iterator": iter}[kind](items)
    o, err = S.run(cls, **{**required(q), row.attr: arg})
    if err is not None and kind in ("generator", "iterator") and row.kind == "coordinates":
        return
    S.check("C17", f"constructor accepts a {kind}", err is None, lambda: repr(err))
    got = getattr(o, row.attr)
    S.check("C17", "members in order", len(got) == len(items) and all(x is y or (row.kind == "coordinates" and x == y) for x, y in zip(got, items)),
            lambda: (kind, items, got))
    keep = list(got)
    if kind == "list":
        arg.append("junk")
        arg.reverse()
        S.check("C17", "later changes of the argument do not matter", list(getattr(o, row.attr)) == keep)
    a, b = cls(**required(q)), cls(**required(q))
    if row.kind == "objlist":
        x = S.child("x", row.classes[0], solid=True)
        getattr(a, row.attr).append(x)
        S.check("C17", "every object has its own empty list", getattr(b, row.attr) == [] and getattr(cls(**required(q)), row.attr) == [])
        for empty in ([], (), iter([])):
            c, d = cls(**{**required(q), row.attr: empty}), cls(**{**required(q), row.attr: empty})
            getattr(c, row.attr).append(x)
            S.check("C17", "an empty argument is not shared", getattr(d, row.attr) == [] and (not isinstance(empty, list) or empty == []))


def copied(S):
    """C17: a list argument of any length and kind is copied."""
    q, row = S.params
    cls = resolve(q)
    kind = S.choice("iterable", ["list", "tuple", "iterator"])
    cs = list(row.classes)[:2] if S.symbolic else list(row.classes)
    items = S.seq("v", lambda n: S.child(n, S.choice(f"{n}.class", cs)), pytype=tuple if kind == "tuple" else list)
    keep = S.map(lambda x: x, items)
    arg = S.iterator(items) if kind == "iterator" else items
    o, err = S.run(cls, **{**required(q), row.attr: arg})
    S.check("C17", f"constructor accepts any {kind}", err is None, lambda: repr(err))
    if err is not None:
        return
    got = getattr(o, row.attr)
    with S.side("spec"):
        want = S.filter(S.nonempty, keep) if (q, row.attr) in FILTERED else keep
    same = (lambda a, b: S.eq(a, b)) if S.symbolic else (lambda a, b: len(a) == len(b) and all(x is y for x, y in zip(a, b)))
    S.check("C17", "members in order", same(got, want), lambda: (kind, items, got))
    S.check("C17", "a copy of the argument", got is not arg and got is not items)
    x = S.child("x", row.classes[0], solid=True)
    got.append(x)
    if kind == "list":
        S.check("C17", "changes of the list do not reach the argument", same(items, keep))
    S.check("C17", "only that list grows", same(getattr(o, row.attr), S.chain(want, [x])))
    a, err = S.run(cls, **required(q))
    b, err = S.run(cls, **required(q))
    c, err = S.run(cls, **{**required(q), row.attr: None})
    getattr(a, row.attr).append(x)
    S.check("C17", "every object has its own empty list", same(getattr(b, row.attr), []) and same(getattr(c, row.attr), [])
            and getattr(b, row.attr) is not getattr(c, row.attr))


# -- histories --------------------------------------------------------------------


def observe(S, o):
    """Everything an observer sees of an object."""
    out = []
    for verb in LEVELS:
        for p in (None, 2):
            t, err = S.run(o.to_string, verbosity=level(verb), precision=p)
            out.append((t, repr(err) if err else None))
    out.append(S.run(lambda: repr(o))[0])
    out.append(S.run(lambda: bool(o))[0])
    out.append(S.run(lambda: str(o))[0])
    return out


def pure(S):
    """C16: with any attribute values, every operation gives the same after all the
    others (also on another object of the class) and changes nothing."""
    from fastkml import config
    from fastkml.registry import registry
    from fastkml.utils import find_all
    q = S.params
    cls = resolve(q)
    kw = filled(S, q)
    kw2 = filled(S, q, pre="b") if not S.symbolic else other_values(S, q, kw)
    o, err = S.run(cls, **kw)
    o2, err2 = S.run(cls, **kw2)
    S.check("C16", "constructor accepts the values", err is None and err2 is None, lambda: (repr(err), repr(err2)))
    if err is not None or err2 is not None:
        return
    e0, err = S.run(o.etree_element)
    S.check("C16", "writing succeeds", err is None, lambda: repr(err))
    if err is not None:
        return
    S.freeze(e0)
    if S.symbolic:
        S.contract("fastkml.utils.find_all", lambda f, x, /, **k: f(x, **k) if x is o or x is o2 else S.iterator([x]))
    before = S.snapshot(o, o2, o.name_spaces, o2.name_spaces)
    sp = {"foo": "{urn:foo}"}

    def conf():
        return (repr(config.NAME_SPACES), repr(config.DEFAULT_NAME_SPACES), repr(registry.get(cls)), repr(sorted(map(repr, registry._registry))))

    def trees(a, b):
        return S.tree_eq(a, b)

    def plain(a, b):
        return S.eq(a, b)

    def objects(a, b):
        return compare.alike(S, a, b)

    conf0 = conf()
    ops = {v: (lambda x, v=v: x.etree_element(verbosity=level(v)), trees) for v in LEVELS}
    ops["precise"] = (lambda x: x.etree_element(precision=3), trees)
    ops["bool"] = (lambda x: S.truth(x), plain)
    ops["eq"] = (lambda x: _eq(S, x, o2 if x is o else o), plain)
    ops["ne"] = (lambda x: x != (o2 if x is o else o), plain)
    if not S.symbolic:
        ops["repr"] = (lambda x: (repr(x), str(x)), plain)
    else:
        ops["repr"] = (S.repr, lambda a, b: True)
    ops["find"] = (lambda x: S.collect(find_all, x)[0], lambda a, b: S.eq(a, b) if S.symbolic else same_values(a, b))
    ops["strict"] = (lambda x: cls.class_from_element(ns=o.ns, name_spaces=sp, element=e0, strict=True), objects)
    ops["lax"] = (lambda x: cls.class_from_element(ns=o.ns, name_spaces=sp, element=e0, strict=False), objects)
    first = {k: S.run(f, o) for k, (f, _) in ops.items()}
    for f, _ in ops.values():
        S.run(f, o2)
    S.check("C16", "the objects are unchanged", S.same(before), lambda: repr(o))
    S.check("C16", "the element is unchanged", S.unchanged())
    S.check("C16", "the arguments are unchanged", sp == {"foo": "{urn:foo}"})
    S.check("C16", "the configuration is unchanged", conf() == conf0)
    for k, (f, same) in reversed(ops.items()):
        r, err = S.run(f, o)
        r0, err0 = first[k]
        S.check("C16", f"{k} again succeeds as before", type(err) is type(err0), lambda: (repr(err0), repr(err)))
        if err is None and err0 is None:
            S.check("C16", f"{k} again gives the same", same(r0, r), lambda: (r0, r))
            if k in ("strict", "lax"):
                S.check("C16", "objects that were read share no lists and namespaces", apart(S, r0, r))
                S.check("C16", "an object that was read does not keep the caller's namespaces", r.name_spaces is not sp)
    S.check("C16", "the objects are unchanged in the end", S.same(before), lambda: repr(o))


def tables(S):
    """C07, C16, C17: an object has its own table of namespaces: the standard ones, overridden by
    those given, whether it is made or read; nobody else's table is kept or changed."""
    from fastkml import config
    q = S.params
    cls = resolve(q)
    given = S.choice("given", [None, {}, {"foo": "{urn:foo}"}, {"gx": "{urn:g}"}, dict(STD), {**STD, "atom": "{urn:a}"}, {**STD, "foo": "{urn:foo}"}])
    want = {**STD, **(given or {})}
    kept = None if given is None else dict(given)
    conf = (dict(config.NAME_SPACES), dict(config.DEFAULT_NAME_SPACES))
    how = S.choice("how", ["made", "element", "string"])
    made = []
    for k in range(2):
        if how == "made":
            o, err = S.run(cls, **required(q), name_spaces=given)
        else:
            src, err = S.run(cls, **required(q))
            if how == "element":
                e, err = S.run(src.etree_element)
                o, err = S.run(cls.class_from_element, ns=src.ns, name_spaces=given, element=e, strict=True)
            else:
                t, err = S.run(src.to_string)
                o, err = S.run(cls.from_string, t, ns=src.ns, name_spaces=given)
        S.check("C07 C16 C17", "an object is made", err is None, lambda: repr(err))
        if err is not None:
            return
        made.append(o)
    a, b = made
    S.check("C07 C17", "the namespaces are the standard ones and those given", S.eq(dict(a.name_spaces), want), lambda: (a.name_spaces, want))
    S.check("C07 C17", "also for the second object", S.eq(dict(b.name_spaces), want), lambda: (b.name_spaces, want))
    tabs = [a.name_spaces, b.name_spaces, config.NAME_SPACES, config.DEFAULT_NAME_SPACES] + ([] if given is None else [given])
    S.check("C16 C17", "every object has its own table", len({id(t) for t in tabs}) == len(tabs))
    S.check("C16", "the caller's table is unchanged", kept == given and (dict(config.NAME_SPACES), dict(config.DEFAULT_NAME_SPACES)) == conf)


def other_values(S, q, kw):
    """Fixed values that differ from those of another object in every simple attribute."""
    out = dict(kw)
    for r in mapped(q):
        v = {"text": "other", "ntext": "other", "atext": "other", "float": 7.25, "afloat": 7.25, "int": 9, "aint": 9}.get(r.kind)
        if r.kind in ("bool", "abool"):
            v = not (r.default or False)
        if r.kind in ("obj", "objlist"):
            out[r.attr] = some(S, f"b.{r.attr}", r, q)
            continue
        if r.attr not in kw or v is None:
            continue
        out[r.attr] = v
        S.assume(S.ne(kw[r.attr], v))
        if r.default is not None and r.default != v and r.kind not in ("bool", "abool"):
            S.assume(S.ne(kw[r.attr], r.default))
    return out


def same_values(a, b):
    return len(a) == len(b) and all(x is y or x == y for x, y in zip(a, b))


def apart(S, a, b):
    """No attribute of one is the same list or dictionary as of the other."""
    ids = {id(v) for v in vars(a).values() if isinstance(v, (list, dict))}
    return not any(id(v) in ids for v in vars(b).values() if isinstance(v, (list, dict)))


def histories(S):
    """C16: any sequence of reads, writes and queries leaves every object and the
    library's configuration as they were, and repeating gives the same result."""
    from fastkml import config
    from fastkml.registry import registry
    from fastkml.utils import find, find_all
    q = S.params
    mode = S.choice("mode", ["default", "mapped", "none"])
    o = gen.obj(S, "o", q, mode=mode, depth=2, solid=S.bool("solid"))
    p = S.choice("q2", PUBLIC)
    o2 = gen.obj(S, "o2", p, depth=1)
    cls = type(o)
    state = S.snapshot(o, o2)
    conf = (repr(config.NAME_SPACES), repr(config.DEFAULT_NAME_SPACES), [repr(registry.get(type(x))) for x in (o, o2)])
    first = observe(S, o)
    text = o.to_string()
    sp = {"foo": "{urn:foo}", **NSMODES[mode].get("name_spaces", {})}
    spc = dict(sp)
    el = config.etree.fromstring(text)
    dump = config.etree.tostring(el)
    ops = {
        "write": lambda: o.to_string(verbosity=level(S.choice("v", LEVELS)), precision=S.choice("p", [None, 0, 4])),
        "write2": lambda: o2.to_string(),
        "repr": lambda: (repr(o), str(o2)),
        "eq": lambda: (o == o2, o2 == o, o != o2),
        "bool": lambda: (bool(o), bool(o2)),
        "find": lambda: (list(find_all(o)), list(find_all(o2, of_type=cls)), find(o, id="x")),
        "read": lambda: cls.from_string(text, name_spaces=sp),
        "read2": lambda: cls.class_from_element(ns=o.ns, name_spaces=sp, element=el, strict=S.bool("strict")),
        "validate": lambda: o.validate(),
        "registry": lambda: registry.get(cls),
        "make": lambda: gen.obj(S, "o3", S.choice("q3", PUBLIC), depth=1),
        "attrs": lambda: [getattr(o, a) for a in dir(o) if not a.startswith("_") and isinstance(getattr(type(o), a, None), property)],
        "bad": lambda: cls.from_string("<a/>"),
    }
    for k in range(S.int("steps", 1, 6)):
        op = S.choice(f"op{k}", sorted(ops))
        S.run(ops[op])
        S.check("C16", f"{op} leaves the objects unchanged", S.same(state), lambda: (op, repr(o)))
        S.check("C16", f"{op} leaves the caller's arguments unchanged", sp == spc and config.etree.tostring(el) == dump, lambda: op)
        now = (repr(config.NAME_SPACES), repr(config.DEFAULT_NAME_SPACES), [repr(registry.get(type(x))) for x in (o, o2)])
        S.check("C16", f"{op} leaves the configuration unchanged", now == conf, lambda: (op, now, conf))
    S.check("C16", "observing again gives the same results", observe(S, o) == first)
    a, ea = S.run(cls.from_string, text, name_spaces=sp)
    b, eb = S.run(cls.from_string, text, name_spaces=sp)
    if ea is None and eb is None:
        S.check("C16", "parsing twice gives equal objects", a == b)
        S.check("C16", "objects share no mutable state", not shared(a, b), lambda: shared(a, b))
        S.check("C16", "objects do not share the caller's dictionary", a.name_spaces is not sp)
    c, d = rebuild(o), rebuild(o)
    S.check("C16", "objects built alike share no mutable state", not shared(c, d), lambda: shared(c, d))


def mutable(o, out, path=""):
    if isinstance(o, (list, dict)):
        out[id(o)] = path
        for k, v in (o.items() if isinstance(o, dict) else enumerate(o)):
            mutable(v, out, f"{path}[{k}]")
    elif isinstance(o, tuple):
        for k, v in enumerate(o):
            mutable(v, out, f"{path}({k})")
    elif type(o).__module__.startswith("fastkml") and hasattr(o, "__dict__") and not isinstance(o, type):
        import enum
        if isinstance(o, enum.Enum):
            return out
        if not getattr(getattr(type(o), "__dataclass_params__", None), "frozen", False):
            out[id(o)] = path
        for k, v in vars(o).items():
            mutable(v, out, f"{path}.{k}")
    return out


def shared(a, b):
    x, y = mutable(a, {}), mutable(b, {})
    return [x[i] for i in x if i in y]


def setup():
    for q in PUBLIC:
        s = short(q)
        rs = mapped(q)
        REGISTRY.append(Harness(representation, f"repr:{s}", ["C11"], (), params=q, cross=60, pool=300))
        REGISTRY.append(Harness(deep_repr, f"repr-deep:{s}", ["C11"], (), params=q, mode="concrete", pool=60,
                                why="representation of nested objects of any depth: induction step is repr:, this is a cross-check"))
        REGISTRY.append(Harness(emptiness, f"empty:{s}", ["C19"], (), params=q, cross=60, pool=300))
        REGISTRY.append(Harness(emptiness_any, f"empty-any:{s}", ["C19"], (), params=q, mode="concrete", pool=80,
                                why="cross-check of empty: on deep objects"))
        if q not in (TRACK, COORDS):
            REGISTRY.append(Harness(together, f"all:{s}", "C01 C02 C04 C07 C16 C18 C19".split(), (), params=q, cross=40, pool=200, budget=40))
        REGISTRY.append(Harness(additional, f"eq-extra:{s}", ["C10"], (), params=q, cross=20, pool=60))
        REGISTRY.append(Harness(strangers, f"strangers:{s}", ["C10"], (), params=q, mode="concrete", pool=1,
                                why="exhaustive over the pairs of classes"))
        REGISTRY.append(Harness(kin, f"kin:{s}", ["C10"], (), params=q, cross=40, pool=100))
        REGISTRY.append(Harness(cousins, f"cousins:{s}", ["C10"], (), params=q, mode="concrete", pool=40,
                                why="cross-check of eq: with nested values and sibling classes"))
        REGISTRY.append(Harness(whole_write, f"write:{s}", "C02 C04 C05 C07 C16 C18 C19".split(), (), params=q, mode="concrete",
                                pool=60, why="cross-check of the composition of the attribute contracts"))
        REGISTRY.append(Harness(whole_trip, f"trip:{s}", ["C01"], (), params=q, mode="concrete", pool=90,
                                why="cross-check of the composition of the attribute contracts"))
        REGISTRY.append(Harness(assigned, f"assigned:{s}", ["C18"], (), params=q, mode="concrete", pool=20,
                                why="cross-check of the order contract"))
        REGISTRY.append(Harness(tables, f"tables:{s}", ["C07", "C16", "C17"], (), params=q, cross=10, pool=30))
        REGISTRY.append(Harness(pure, f"pure:{s}", ["C16"], (), params=q, cross=15, pool=60, budget=40))
        REGISTRY.append(Harness(histories, f"history:{s}", ["C16"], (), params=q, mode="concrete", pool=40,
                                why="sequences of operations; single operations are covered by attr: and forms:"))
        for r in rs:
            REGISTRY.append(Harness(equality, f"eq:{s}.{r.attr}", ["C10"], (), params=(q, r), cross=20))
            if r.kind == "objlist":
                REGISTRY.append(Harness(copied, f"copied:{s}.{r.attr}", ["C17"], (), params=(q, r), cross=40, pool=100))
                REGISTRY.append(Harness(lists, f"list:{s}.{r.attr}", ["C17"], (), params=(q, r), mode="concrete", pool=120,
                                        why="identity and aliasing of list objects"))


setup()
