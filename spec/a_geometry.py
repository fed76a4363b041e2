"""C12: conversion between geometries and KML geometries."""
from __future__ import annotations

from vf.harness import Harness, REGISTRY

from . import gen
from .base import NSMODES, own_ns, spaces

KINDS = ("Point", "LineString", "LinearRing", "Polygon", "MultiPoint", "MultiLineString", "MultiPolygon", "GeometryCollection")


def geo():
    import pygeoif.geometry as g
    return g


def kml():
    import fastkml.geometry as g
    return g


def ring(S, n, dim):
    pts = gen.distinct(S, gen.positions(S, n, 3, dim))
    return pts + [pts[0]]


def shape(S, name, kind=None, depth=2):
    """An arbitrary geometry."""
    g = geo()
    dim = S.choice(f"{name}.dim", [2, 3])
    kind = kind or S.choice(f"{name}.kind", KINDS if depth > 0 else KINDS[:4])
    n = S.choice(f"{name}.n", [1, 1, 2, 3, 5])
    if kind == "Point":
        return g.Point(*gen.position(S, name, dim))
    if kind == "LineString":
        return g.LineString(gen.distinct(S, gen.positions(S, name, 2, dim)))
    if kind == "LinearRing":
        return g.LinearRing(ring(S, name, dim))
    if kind == "Polygon":
        return g.Polygon(ring(S, name, dim), [ring(S, f"{name}.h{k}", dim) for k in range(S.choice(f"{name}.holes", [0, 0, 1, 3]))])
    if kind == "MultiPoint":
        return g.MultiPoint.from_points(*[shape(S, f"{name}.{k}", "Point") for k in range(n)])
    if kind == "MultiLineString":
        return g.MultiLineString.from_linestrings(*[shape(S, f"{name}.{k}", "LineString") for k in range(n)])
    if kind == "MultiPolygon":
        return g.MultiPolygon.from_polygons(*[shape(S, f"{name}.{k}", "Polygon") for k in range(n)])
    return g.GeometryCollection([shape(S, f"{name}.{k}", depth=depth - 1) for k in range(n)])


SIMPLE = {"Point": "Point", "LineString": "LineString", "LinearRing": "LinearRing", "Polygon": "Polygon"}


def parts(x):
    """Type, coordinates, rings and members of a geometry, for comparison."""
    t = x.geom_type
    if t == "Point":
        return t, tuple(x.coords)
    if t in ("LineString", "LinearRing"):
        return t, tuple(x.coords)
    if t == "Polygon":
        return t, tuple(x.exterior.coords), tuple(tuple(i.coords) for i in x.interiors)
    return t, tuple(parts(m) for m in x.geoms)


def returned(x):
    """What the conversion gives back: a collection of one kind becomes the matching multi-geometry."""
    t = x.geom_type
    if t in SIMPLE:
        return parts(x)
    ms = tuple(returned(m) for m in x.geoms)
    kinds = {m[0] for m in ms}
    multi = {"Point": "MultiPoint", "LineString": "MultiLineString", "Polygon": "MultiPolygon"}
    if len(kinds) == 1 and (k := next(iter(kinds))) in multi:
        return multi[k], ms
    return "GeometryCollection", ms


def kml_alike(S, k, x, ext, tess, am, note):
    """The KML geometry corresponding to x."""
    K = kml()
    t = x.geom_type
    want = {"Point": K.Point, "LineString": K.LineString, "LinearRing": K.LinearRing, "Polygon": K.Polygon}.get(t, K.MultiGeometry)
    S.check("C12", "corresponding KML type", type(k) is want, lambda: (x, k))
    if t in SIMPLE:
        S.check("C12", "extrude reaches it", k.extrude is ext, note)
        S.check("C12", "altitude mode reaches it", k.altitude_mode is am, note)
        if t != "Point":
            S.check("C12", "tessellate reaches it", k.tessellate is tess, note)
        if t == "Polygon":
            S.check("C12", "outer ring", tuple(k.outer_boundary.kml_geometry.kml_coordinates.coords) == tuple(x.exterior.coords), note)
            S.check("C12", "inner rings in order", [tuple(b.kml_geometry.kml_coordinates.coords) for b in k.inner_boundaries]
                    == [tuple(i.coords) for i in x.interiors], note)
        else:
            S.check("C12", "coordinates", tuple(k.kml_coordinates.coords) == tuple(x.coords), note)
    else:
        S.check("C12", "one member per member", len(k.kml_geometries) == len(list(x.geoms)), note)
        for m, y in zip(k.kml_geometries, x.geoms):
            kml_alike(S, m, y, ext, tess, am, note)


class Holder:
    """Any object with the geo interface."""

    def __init__(self, g):
        self.__geo_interface__ = g.__geo_interface__


def converting(S):
    from fastkml.enums import AltitudeMode
    K = kml()
    x = shape(S, "g")
    ext, tess = S.choice("ext", [None, True, False]), S.choice("tess", [None, True, False])
    am = S.choice("am", [None, *AltitudeMode])
    kw = {}
    for a in ("id", "target_id"):
        if S.bool(a):
            kw[a] = S.text(f"{a}.v", clean=True, nonempty=True)
    if S.bool("ns?"):
        kw["ns"] = S.choice("ns", ["", "{urn:x}", "{http://www.opengis.net/kml/2.2}"])
    if S.bool("sp?"):
        kw["name_spaces"] = {"kml": "{urn:k}"}
    arg = S.choice("as", [lambda: x, lambda: Holder(x), lambda: x.__geo_interface__])()
    k, err = S.run(K.create_kml_geometry, arg, extrude=ext, tessellate=tess, altitude_mode=am, **kw)
    S.check("C12", "a KML geometry can be made", err is None, lambda: (x, repr(err)))
    note = lambda: (x, kw, ext, tess, am, k)  # noqa: E731
    kml_alike(S, k, x, ext, tess, am, note)
    S.check("C12", "the same geometry comes back", parts(k.geometry) == returned(x), lambda: (x, k.geometry))
    S.check("C12", "options of the object", k.id == kw.get("id", "") and k.target_id == kw.get("target_id", "")
            and k.ns == kw.get("ns", kw.get("name_spaces", {}).get("kml", "{http://www.opengis.net/kml/2.2}")), note)
    again = K.create_kml_geometry(k.geometry, extrude=ext, tessellate=tess, altitude_mode=am)
    S.check("C12", "converting again gives the same geometry", parts(again.geometry) == parts(k.geometry), note)
    if not kw.get("ns") and "ns" not in kw and "name_spaces" not in kw:
        back, err = S.run(type(k).from_string, k.to_string())
        S.check("C12", "survives writing and reading", err is None and parts(back.geometry) == regrouped(returned(x)),
                lambda: (x, repr(err), back and back.geometry))


def regrouped(p):
    """Members come back grouped by element name."""
    if p[0] in SIMPLE:
        return p
    order = {"Point": 0, "LineString": 1, "Polygon": 2, "LinearRing": 3}
    ms = [regrouped(m) for m in p[1]]
    return p[0], tuple(sorted(ms, key=lambda m: order.get(m[0], 4)))


def direct(S):
    """The constructors with a geometry."""
    from fastkml.enums import AltitudeMode
    K = kml()
    kind = S.choice("kind", KINDS)
    x = shape(S, "g", kind)
    cls = getattr(K, kind if kind in SIMPLE else "MultiGeometry")
    am = S.choice("am", [None, *AltitudeMode])
    ext, tess = S.choice("ext", [None, True, False]), S.choice("tess", [None, True, False])
    kw = {"extrude": ext, "altitude_mode": am}
    if kind != "Point":
        kw["tessellate"] = tess
    k, err = S.run(cls, geometry=x, **kw)
    S.check("C12", "a KML geometry can be made", err is None, lambda: (x, repr(err)))
    kml_alike(S, k, x, ext, tess, am, lambda: (x, k))
    S.check("C12", "the same geometry comes back", parts(k.geometry) == returned(x), lambda: (x, k.geometry))
    from fastkml.features import Placemark
    p, err = S.run(Placemark, geometry=x)
    S.check("C12", "a placemark takes the geometry", err is None, lambda: (x, repr(err)))
    kml_alike(S, p.kml_geometry, x, None, None, None, lambda: (x, p))
    S.check("C12", "and gives it back", parts(p.geometry) == returned(x), lambda: (x, p.geometry))
    if kind == "LinearRing":
        for b in (K.OuterBoundaryIs, K.InnerBoundaryIs):
            S.check("C12", "a boundary gives back its ring", parts(b(geometry=x).geometry) == parts(x))


def refusals(S):
    """A geometry together with explicit KML parts is refused."""
    from fastkml.exceptions import GeometryError
    K = kml()
    case = S.choice("case", ["Point", "LineString", "LinearRing", "OuterBoundaryIs", "InnerBoundaryIs", "Polygon.outer", "Polygon.inner",
                             "MultiGeometry", "Placemark"])
    C = K.Coordinates(coords=ring(S, "c", S.choice("dim", [2, 3])))
    R = K.LinearRing(kml_coordinates=C)
    if case in ("Point", "LineString", "LinearRing"):
        f = lambda: getattr(K, case)(geometry=shape(S, "g", case), kml_coordinates=C)  # noqa: E731
    elif case.endswith("BoundaryIs"):
        f = lambda: getattr(K, case)(geometry=shape(S, "g", "LinearRing"), kml_geometry=R)  # noqa: E731
    elif case == "Polygon.outer":
        f = lambda: K.Polygon(geometry=shape(S, "g", "Polygon"), outer_boundary=K.OuterBoundaryIs(kml_geometry=R))  # noqa: E731
    elif case == "Polygon.inner":
        f = lambda: K.Polygon(geometry=shape(S, "g", "Polygon"), inner_boundaries=[K.InnerBoundaryIs(kml_geometry=R)])  # noqa: E731
    elif case == "MultiGeometry":
        f = lambda: K.MultiGeometry(geometry=shape(S, "g", S.choice("mk", KINDS[4:])), kml_geometries=[R])  # noqa: E731
    else:
        from fastkml.features import Placemark
        f = lambda: Placemark(geometry=shape(S, "g"), kml_geometry=R)  # noqa: E731
    o, err = S.run(f)
    S.check("C12", "a geometry with explicit KML parts is refused", isinstance(err, (GeometryError, ValueError)), lambda: (case, o, repr(err)))


class Odd:
    geom_type = "Circle"
    __geo_interface__ = {"type": "Circle", "coordinates": (1, 2)}


def unsupported(S):
    """Other types are refused."""
    K = kml()
    x = S.choice("x", [Odd(), {"type": "Curve", "coordinates": [(1, 2)]}, "POINT (1 2)", 7, None, object(), [(1.0, 2.0)]])
    o, err = S.run(K.create_kml_geometry, x)
    S.check("C12", "unsupported geometry types are refused", err is not None, lambda: (x, o))


def multis(S):
    """Collections by the kinds of their members; empty parts are left out."""
    K = kml()
    n = S.choice("n", [0, 1, 2, 3, 4, 6])
    only = S.choice("only", [None, *KINDS[:4]])
    ms = [shape(S, f"m{k}", only, depth=1) for k in range(n)]
    r, err = S.run(K.create_multigeometry, ms)
    S.check("C12", "a collection can be made", err is None, lambda: (ms, repr(err)))
    if not ms:
        S.check("C12", "nothing for no members", r is None)
    else:
        kinds = {m.geom_type for m in ms}
        multi = {"Point": "MultiPoint", "LineString": "MultiLineString", "Polygon": "MultiPolygon"}
        k = next(iter(kinds))
        want = multi[k] if len(kinds) == 1 and k in multi else "GeometryCollection"
        S.check("C12", "type of a collection", r.geom_type == want, lambda: (ms, r))
        S.check("C12", "members in order", [parts(m) for m in r.geoms] == [parts(m) for m in ms], lambda: (ms, r))
    made = [K.create_kml_geometry(m) for m in ms]
    empty = [K.Point(), K.LineString(), K.Polygon(), K.MultiGeometry(), K.LinearRing(), K.Point(kml_coordinates=K.Coordinates(coords=[]))]
    mixed = []
    for m in made:
        if S.bool("gap"):
            mixed.append(S.choice("empty", empty))
        mixed.append(m)
    if S.bool("tail"):
        mixed.append(S.choice("empty2", empty))
    g = K.MultiGeometry(kml_geometries=mixed)
    want = K.create_multigeometry([m.geometry for m in made])
    S.check("C12", "empty members are left out", (g.geometry is None) == (want is None) and (want is None or parts(g.geometry) == parts(want)),
            lambda: (g, want))
    S.check("C12 C19", "a collection of empty members is empty", bool(g) == bool(ms))
    if ms and made[0].geometry.geom_type == "Polygon" and isinstance(made[0], K.Polygon):
        p = made[0]
        q = K.Polygon(outer_boundary=p.outer_boundary, inner_boundaries=[K.InnerBoundaryIs(), *p.inner_boundaries, K.InnerBoundaryIs()])
        S.check("C12", "empty inner boundaries are left out", parts(q.geometry) == parts(p.geometry), lambda: (q, p))


# ---------------------------------------------------------------------------
# for all geometries


def cshape(S, name, kind, dim):
    """An arbitrary geometry with the structure of vf.geo.make."""
    g = geo()
    if kind is None:
        return shape(S, name, depth=1)
    if kind == "Point":
        return g.Point(*gen.position(S, name, dim))
    if kind in ("LineString", "LinearRing"):
        pts = list(S.seq(f"{name}.c", lambda n: gen.position(S, n, dim), minlen=2))
        while len(pts) < 3:
            pts.append((pts[-1][0] + 1.25,) + pts[-1][1:])
        pts = gen.distinct(S, pts)
        return g.LineString(pts) if kind == "LineString" else g.LinearRing(pts + [pts[0]])
    if kind == "Polygon":
        holes = S.seq(f"{name}.holes", lambda n: cshape(S, n, "LinearRing", dim))
        return g.Polygon(cshape(S, f"{name}.shell", "LinearRing", dim).coords, [h.coords for h in holes])
    member = {"MultiPoint": "Point", "MultiLineString": "LineString", "MultiPolygon": "Polygon"}.get(kind)
    ms = S.seq(f"{name}.m", lambda n: cshape(S, n, member, dim), minlen=1)
    if kind == "GeometryCollection":
        return g.GeometryCollection(ms)
    return {"MultiPoint": g.MultiPoint.from_points, "MultiLineString": g.MultiLineString.from_linestrings,
            "MultiPolygon": g.MultiPolygon.from_polygons}[kind](*ms)


def alike(S, a, b):
    """Same kind of geometry with the same content."""
    if S.symbolic:
        return S.eq(a, b)
    return a is not None and b is not None and type(a) is type(b) and parts(a) == parts(b)


def options(S, kw, names=("extrude", "tessellate")):
    from fastkml.enums import AltitudeMode
    for a in names:
        kw[a] = S.lazy(a, lambda a=a: S.bool(f"{a}.v"))
    kw["altitude_mode"] = S.opt("am", lambda: S.enum("am.v", AltitudeMode))
    return kw


def coords_same(S, got, want):
    return S.eq(got, want) if S.symbolic else tuple(got) == tuple(want)


def rings_same(S, k, x):
    """The boundaries of a KML polygon are the rings of the geometry."""
    S.check("C12", "outer ring", coords_same(S, k.outer_boundary.kml_geometry.kml_coordinates.coords, x.exterior.coords))
    got = S.map(lambda b: b.kml_geometry.kml_coordinates.coords, k.inner_boundaries)
    want = S.map(lambda r: r.coords, x.interiors)
    S.check("C12", "inner rings in order", S.eq(got, want) if S.symbolic else [tuple(c) for c in got] == [tuple(c) for c in want])


def simple_kind(kind):
    def fn(S):
        K = kml()
        x = S.geo("g", kind, S.choice("dim", [2, 3]))
        how = S.choice("how", ["create", "class", "placemark"])
        kw = options(S, {})
        want = dict(kw)
        if how == "create":
            kw["id"] = S.opt("id", lambda: S.text("id.v", clean=True, nonempty=True))
            kw["target_id"] = S.opt("tid", lambda: S.text("tid.v", clean=True, nonempty=True))
            kw["ns"] = S.choice("ns", [None, "", "{urn:x}"])
            k, err = S.run(K.create_kml_geometry, x, **kw)
        elif how == "class":
            if kind == "Point":
                del kw["tessellate"]
            k, err = S.run(getattr(K, kind), geometry=x, **kw)
        else:
            from fastkml.features import Placemark
            p, err = S.run(Placemark, geometry=x)
            k = p and p.kml_geometry
            want = dict.fromkeys(want)
            S.check("C12 C20", "a placemark gives it back", err is None and alike(S, p.geometry, x))
        S.check("C12", "a KML geometry can be made", err is None, lambda: (x, repr(err)))
        S.check("C12", "corresponding KML type", (type(k) is getattr(K, kind)), lambda: (x, k))
        S.check("C12", "extrude reaches it", S.eq(k.extrude, want["extrude"]))
        S.check("C12", "altitude mode reaches it", S.eq(k.altitude_mode, want["altitude_mode"]))
        if kind != "Point":
            S.check("C12", "tessellate reaches it", S.eq(k.tessellate, want["tessellate"]))
        if how == "create":
            S.check("C12", "identifiers", S.conj(S.eq(k.id, kw["id"] or ""), S.eq(k.target_id, kw["target_id"] or "")))
            S.check("C12", "namespace", k.ns == (kw["ns"] if kw["ns"] is not None else "{http://www.opengis.net/kml/2.2}"), lambda: (k.ns, kw))
        if kind == "Polygon":
            rings_same(S, k, x)
        else:
            S.check("C12", "coordinates", coords_same(S, k.kml_coordinates.coords, x.coords))
        if how == "create" and kind != "Polygon":
            kw.pop("tessellate") if kind == "Point" else None
            y = getattr(K, kind)(geometry=x, **kw)
            S.check("C12", "equal to what the class makes of it", S.truth(type(k).__eq__(k, y)), lambda: (repr(k), repr(y)))
        S.check("C12", "the same geometry comes back", alike(S, k.geometry, x), lambda: (x, k.geometry))
    return fn


def multi_kind(kind):
    """Collections: every member is converted with the options (by the contract
    of create_kml_geometry in symbolic runs) and the same collection comes back."""
    def fn(S):
        K = kml()
        x = S.geo("g", kind, S.choice("dim", [2, 3]))
        member_contract(S)
        how = S.choice("how", ["create", "class", "placemark"])
        kw = options(S, {})
        want = dict(kw)
        kw["ns"] = S.choice("ns", [None, "", "{urn:x}"])
        if how == "create":
            k, err = S.run(K.create_kml_geometry, x, **kw)
        elif how == "class":
            k, err = S.run(K.MultiGeometry, geometry=x, **kw)
        else:
            from fastkml.features import Placemark
            p, err = S.run(Placemark, geometry=x)
            k = p and p.kml_geometry
            want = dict.fromkeys(want)
        S.check("C12", "a KML geometry can be made", err is None, lambda: (x, repr(err)))
        if S.symbolic and how == "placemark":
            S.check("C12", "a placemark converts its geometry", S.eq(k.__dict__["_vf_from"], x))
            return
        S.check("C12", "corresponding KML type", type(k) is K.MultiGeometry, lambda: (x, k))
        if S.symbolic:
            got = S.map(lambda m: m.__dict__["_vf_from"], k.kml_geometries)
            S.check("C12", "one member per member, in order", S.eq(got, x.geoms))
            for a in want:
                got = S.map(lambda m: m.__dict__["_vf_args"].get(a), k.kml_geometries)
                S.check("C12", f"{a} reaches every member", S.eq(got, S.map(lambda m: want[a], x.geoms)))
            if kind != "GeometryCollection":
                S.check("C12", "the same geometry comes back", alike(S, k.geometry, x))
        else:
            kml_alike(S, k, x, want["extrude"], want["tessellate"], want["altitude_mode"], None)
            S.check("C12", "the same geometry comes back", parts(k.geometry) == returned(x), lambda: (x, k.geometry))
    return fn


def member_contract(S):
    """create_kml_geometry, by contract: a KML geometry that gives the geometry back."""
    if not S.symbolic:
        return
    from vf import children

    def made(f, geometry=None, **kw):
        cls = {"Point": "Point", "LineString": "LineString", "LinearRing": "LinearRing", "Polygon": "Polygon"}.get(
            geometry.geom_type if isinstance(geometry.geom_type, str) else "", "MultiGeometry")
        o = children.stub_class(getattr(kml(), cls))("made", kw.get("ns"), kw.get("name_spaces"))
        o.__dict__.update(_vf_from=geometry, _vf_geom=geometry, _vf_args=kw, _vf_solid=True)
        return o
    S.contract("fastkml.geometry.create_kml_geometry", made)


def inside(k):
    """The parts a KML geometry made from a geometry consists of."""
    kids = [getattr(k, a, None) for a in ("kml_coordinates", "outer_boundary", "kml_geometry")]
    return [c for c in kids if c is not None]


def in_spaces(S, k, ns, sp, where="it"):
    S.check("C07", f"{where} is in the namespace of the object", k.ns == ns, lambda: (k.ns, ns))
    S.check("C07", f"{where} knows the namespaces of the object", k.name_spaces == sp, lambda: (k.name_spaces, sp))
    for c in inside(k):
        in_spaces(S, c, ns, sp, type(c).__name__)
    if getattr(k, "inner_boundaries", None) is not None:
        if S.symbolic:
            for what, want in (("ns", ns), ("name_spaces", sp)):
                for f in (lambda b: b, lambda b: b.kml_geometry, lambda b: b.kml_geometry.kml_coordinates):
                    S.check("C07", f"inner boundaries have its {what}", S.eq(S.map(lambda b: getattr(f(b), what) == want, k.inner_boundaries),
                                                                             S.map(lambda b: True, k.inner_boundaries)))
        else:
            for b in k.inner_boundaries:
                in_spaces(S, b, ns, sp, "inner boundary")
    for m in () if S.symbolic else getattr(k, "kml_geometries", ()):
        in_spaces(S, m, ns, sp, "member")


def placed(kind):
    """Parts made from a geometry are in the namespace of the object and found again, whatever the namespaces."""
    def fn(S):
        K = kml()
        from fastkml.features import Placemark
        mode = S.choice("mode", list(NSMODES))
        where = NSMODES[mode]
        x = S.geo("g", kind, S.choice("dim", [2, 3]))
        hows = ["create", "class", "placemark"] + (["OuterBoundaryIs", "InnerBoundaryIs"] if kind == "LinearRing" else [])
        how = S.choice("how", hows)
        if how == "create":
            make, cls = K.create_kml_geometry, getattr(K, kind if kind in SIMPLE else "MultiGeometry")
        else:
            make = cls = Placemark if how == "placemark" else getattr(K, how if how != "class" else kind if kind in SIMPLE else "MultiGeometry")
        args = {"geometry": x, **where}
        member_contract(S) if kind not in SIMPLE or (S.symbolic and how == "placemark") else None
        o, err = S.run(make, **args)
        S.check("C12", "a KML geometry can be made", err is None, lambda: repr(err))
        if err is not None:
            return
        ns, sp = own_ns("fastkml.geometry.Point", mode), spaces(mode)
        k = o.kml_geometry if how == "placemark" else o
        if S.symbolic and how == "placemark":
            S.check("C07", "the geometry of a placemark is made in its namespaces",
                    S.conj(*[S.eq(k.__dict__["_vf_args"].get(a), where.get(a)) for a in ("ns", "name_spaces")]))
            return
        if S.symbolic and kind not in SIMPLE:
            for a in ("ns", "name_spaces"):
                got = S.map(lambda m: m.__dict__["_vf_args"].get(a), k.kml_geometries)
                S.check("C07", f"members are made with its {a}", S.eq(got, S.map(lambda m: where.get(a), x.geoms)))
            return
        in_spaces(S, k, ns, sp)
        if mode == "own":
            return
        text, err = S.run(o.to_string)
        S.check("C01", "it can be written", err is None, lambda: repr(err))
        if err is not None:
            return
        back, err = S.run(cls.from_string, text, name_spaces=where.get("name_spaces"))
        S.check("C01", "it can be read", err is None, lambda: (text, repr(err)))
        if err is None:
            S.check("C01 C07 C12", "the same geometry is read again", alike(S, back.geometry, x) if kind != "GeometryCollection"
                    else back.geometry is not None and parts(back.geometry) == regrouped(returned(x)), lambda: (x, text))
    return fn


def grouping(S):
    """create_multigeometry: nothing, one kind, or several kinds."""
    K = kml()
    case = S.choice("case", ["none", "one", "mixed"])
    dim = S.choice("dim", [2, 3])
    if case == "none":
        ms = S.seq("m", lambda n: None, maxlen=0) if not S.symbolic else []
        r, err = S.run(K.create_multigeometry, [] if not S.symbolic else ms)
        S.check("C12", "nothing for no members", err is None and r is None)
        return
    if case == "one":
        kind = S.choice("kind", KINDS[:4])
        ms = S.seq("m", lambda n: S.geo(n, kind, dim), minlen=1)
        want = {"Point": "MultiPoint", "LineString": "MultiLineString", "Polygon": "MultiPolygon"}.get(kind, "GeometryCollection")
    else:
        some = lambda n: S.geo(n, None, dim)  # noqa: E731
        a, b = S.geo("p", None, dim), S.geo("q", None, dim)
        S.assume(S.ne(a.geom_type, b.geom_type))
        ms = S.chain(S.chain(S.chain(S.chain(S.seq("x", some), [a]), S.seq("y", some)), [b]), S.seq("z", some))
        want = "GeometryCollection"
    r, err = S.run(K.create_multigeometry, ms)
    S.check("C12", "a collection can be made", err is None, lambda: (ms, repr(err)))
    S.check("C12", "type of a collection", r.geom_type == want, lambda: (ms, r))
    got = S.map(lambda m: m, r.geoms)
    S.check("C12", "members in order", S.eq(got, S.map(lambda m: m, ms)) if S.symbolic else [parts(m) for m in got] == [parts(m) for m in ms],
            lambda: (ms, r))


def leaving_out(S):
    """Members and boundaries without content are left out."""
    K = kml()
    case = S.choice("case", ["multi", "polygon"])
    if case == "multi":
        q = S.choice("cls", GEOMS)
        ms = S.seq("m", lambda n: S.child(n, q))
        o, err = S.run(K.MultiGeometry, kml_geometries=ms)
        S.check("C12", "members can be given", err is None)
        with S.side("spec"):
            want = S.map(lambda m: m.geometry, S.filter(lambda m: S.nonempty(m), ms))
        got = o.geometry
        if S.symbolic:
            with S.side("spec"):
                some = S.yes(want)
            S.check("C12", "a geometry exactly when some member has one", (got is not None) == some)
            if got is not None:
                S.check("C12", "members without content are left out", S.eq(got.args[0], want))
        else:
            S.check("C12", "members without content are left out", (got is None) == (not want), lambda: (ms, got))
            if want:
                S.check("C12", "members without content are left out", [parts(m) for m in got.geoms] == [parts(m) for m in want], lambda: (ms, got))
        return
    outer = S.child("outer", "fastkml.geometry.OuterBoundaryIs")
    inner = S.seq("inner", lambda n: S.child(n, "fastkml.geometry.InnerBoundaryIs"))
    o, err = S.run(K.Polygon, outer_boundary=outer, inner_boundaries=inner)
    S.check("C12", "boundaries can be given", err is None)
    got = o.geometry
    if not S.nonempty(outer):
        S.check("C12", "no geometry without an outer ring", got is None)
        return
    S.check("C12", "a geometry with an outer ring", got is not None)
    S.check("C12", "outer ring", alike(S, got.exterior, outer.geometry))
    with S.side("spec"):
        want = S.map(lambda m: m.geometry, S.filter(lambda m: S.nonempty(m), inner))
    got = S.map(lambda m: m, got.interiors)
    S.check("C12", "inner boundaries without content are left out", S.eq(got, want) if S.symbolic else [parts(m) for m in got] == [parts(m) for m in want])


GEOMS = gen.GEOMS


def exclusive(S):
    """A geometry and explicit KML parts are refused together, whatever they are."""
    from fastkml.exceptions import GeometryError
    K = kml()
    case = S.choice("case", ["Point", "LineString", "LinearRing", "OuterBoundaryIs", "InnerBoundaryIs", "Polygon.outer", "Polygon.inner",
                             "MultiGeometry", "Placemark"])
    name = case.partition(".")[0]
    kind = {"OuterBoundaryIs": "LinearRing", "InnerBoundaryIs": "LinearRing", "MultiGeometry": "GeometryCollection", "Placemark": "Point"}.get(name, name)
    x = S.geo("g", kind, S.choice("dim", [2, 3]))
    if case in ("Point", "LineString", "LinearRing"):
        kw = {"kml_coordinates": S.child("c", "fastkml.geometry.Coordinates", solid=True)}
    elif case.endswith("BoundaryIs"):
        kw = {"kml_geometry": S.child("c", "fastkml.geometry.LinearRing", solid=True)}
    elif case == "Polygon.outer":
        kw = {"outer_boundary": S.child("c", "fastkml.geometry.OuterBoundaryIs", solid=True)}
    elif case == "Polygon.inner":
        kw = {"inner_boundaries": S.seq("c", lambda n: S.child(n, "fastkml.geometry.InnerBoundaryIs", solid=True), minlen=1)}
    elif case == "MultiGeometry":
        kw = {"kml_geometries": S.seq("c", lambda n: S.child(n, "fastkml.geometry.LineString", solid=True), minlen=1)}
    else:
        kw = {"kml_geometry": S.child("c", "fastkml.geometry.LineString", solid=True)}
    if case == "Placemark":
        from fastkml.features import Placemark
        o, err = S.run(Placemark, geometry=x, **kw)
    else:
        o, err = S.run(getattr(K, name), geometry=x, **kw)
    S.check("C12", "a geometry with explicit KML parts is refused", isinstance(err, (GeometryError, ValueError)), lambda: (case, o, repr(err)))


G = "fastkml.geometry."
BOTH = [(simple_kind(k), f"shape:{k}", (G + "create_kml_geometry", f"{G}{k}.__init__", f"{G}{k}.geometry")) for k in KINDS[:4]]
BOTH += [(multi_kind(k), f"shape:{k}", (G + "create_kml_geometry", G + "MultiGeometry.__init__", G + "MultiGeometry.geometry", G + "create_multigeometry"))
         for k in KINDS[4:]]
BOTH += [(grouping, "group", (G + "create_multigeometry",)),
         (leaving_out, "left-out", (G + "MultiGeometry.geometry", G + "Polygon.geometry", G + "Polygon.__init__", G + "MultiGeometry.__init__")),
         (exclusive, "exclusive", tuple(f"{G}{c}.__init__" for c in ("Point", "LineString", "LinearRing", "BoundaryIs", "Polygon", "MultiGeometry"))
          + ("fastkml.features.Placemark.__init__",))]
for k in KINDS:
    REGISTRY.append(Harness(placed(k), f"geometry:placed:{k}", ["C01", "C07", "C12"] if k in SIMPLE else ["C07", "C12"], (), mode="both", pool=120, cross=40))
for f, n, fns in BOTH:
    REGISTRY.append(Harness(f, f"geometry:{n}", ["C12"], fns, mode="both", pool=400, cross=60, budget=60))

for f, n, pool in ((converting, "convert", 1500), (direct, "direct", 900), (refusals, "refuse", 300), (unsupported, "unsupported", 30),
                   (multis, "multi", 900)):
    REGISTRY.append(Harness(f, f"geometry:{n}", ["C12"], (), mode="concrete", pool=pool, why="geometry library"))
