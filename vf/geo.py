"""Assumed contract of pygeoif: geometries are immutable values that give back
what they were made from; equal exactly when kind, coordinates, rings and
members are equal.  (pygeoif drops consecutive repetitions of a position and
closes rings: the contract is stated for coordinates in that normal form.)"""
from __future__ import annotations

import z3

from . import core, stubs
from .core import STR, SymStr, Term, Unsupported, ctx, force
from .seq import SList, Star, STuple, SymSeq

MULTI = {"Point": "MultiPoint", "LineString": "MultiLineString", "Polygon": "MultiPolygon"}
KINDS = ("Point", "LineString", "LinearRing", "Polygon", "MultiPoint", "MultiLineString", "MultiPolygon", "GeometryCollection")


def lib():
    import pygeoif.geometry as g
    return g


def assumed():
    c = ctx()
    if c is not None:
        c.assumptions.add("pygeoif: geometries give back the coordinates, rings and members they were made from (in the normal form without "
                          "consecutive repetitions, rings closed) and are equal exactly when these are equal")


def term(head, args, pytype=object, attrs=None):
    t = Term(head, args, pytype=pytype, truth=True, attrs=attrs)
    t.injective = True
    return t


def as_tuple(v):
    v = force(v)
    if isinstance(v, SymSeq):
        if v.pytype is tuple:
            return v
        t = SymSeq(v.name, v.make, v.minlen, tuple, v.maxlen)
        t._gen, t._idx, t.varied = v._gen, v._idx, v.varied
        t.nonempty = v.nonempty
        if hasattr(v, "lengroup"):
            t.lengroup = v.lengroup
        return t
    if isinstance(v, SList):
        return STuple(v) if v.has_star() else tuple(list.__iter__(v))
    if isinstance(v, list):
        return tuple(v)
    return v


def as_list(v, loc):
    out = SList(loc=loc)
    out.extend(v)
    return out


def point(pos):
    """Point(x, y[, z])."""
    assumed()
    pos = tuple(pos)
    if len(pos) == 3 and pos[2] is None:
        pos = pos[:2]
    at = {"coords": (pos,), "geom_type": "Point", "x": pos[0], "y": pos[1], "has_z": len(pos) == 3, "is_empty": False}
    if len(pos) == 3:
        at["z"] = pos[2]
    return term("pygeoif.Point", ((pos,),), lib().Point, at)


def line(kind, coords):
    assumed()
    coords = as_tuple(coords)
    return term(f"pygeoif.{kind}", (coords,), getattr(lib(), kind), {"coords": coords, "geom_type": kind, "is_empty": False})


def simple(kind, coords):
    coords = force(coords)
    if kind == "Point" and not isinstance(coords, Term):
        first = coords[0]
        if not isinstance(first, tuple):
            raise Unsupported("position of a point")
        lib().Point(*[0.0 for _ in first])   # the arity of the constructor
        return point(first)
    if isinstance(coords, Term):
        assumed()
        return term(f"pygeoif.{kind}", (coords,), getattr(lib(), kind), {"coords": coords, "geom_type": kind, "is_empty": False})
    return line(kind, coords)


def polygon(shell, holes):
    assumed()
    return term("pygeoif.Polygon", (shell, holes), lib().Polygon,
                {"exterior": shell, "interiors": holes, "geom_type": "Polygon", "is_empty": False})


def collection(kind, members):
    """A non-empty collection of non-empty members."""
    assumed()
    ms = as_list(members, "spec:members")
    return term(f"pygeoif.{kind}", (ms,), getattr(lib(), kind), {"geoms": ms, "geom_type": kind, "is_empty": False})


def unknown(name):
    """A geometry of some kind."""
    k = SymStr(z3.Const(f"{name}.kind", STR))
    ctx().add(z3.Or(*[k.e == z3.StringVal(x) for x in KINDS]))
    return term("pygeoif.any", (name,), object, {"geom_type": k, "is_empty": False})


def spread(args):
    out = SList(loc="spec:spread")
    for a in args:
        if isinstance(a, stubs.Spread):
            out.extend(a.l)
        else:
            out.append(a)
    return out


def ext_simple(f, args, kw):
    (coords,) = args or tuple(kw.values())
    return simple(f.__self__.__name__, coords)


def ext_polygon(f, args, kw):
    return polygon(args[0] if args else kw["shell"], spread(args[1:]))


def ext_point(f, args, kw):
    import inspect
    b = inspect.signature(lib().Point.__init__).bind(None, *args, **kw)
    b.apply_defaults()
    return point((b.arguments["x"], b.arguments["y"], b.arguments["z"]))


def ext_line(f, args, kw):
    (coords,) = args or tuple(kw.values())
    return line(f.__name__, coords)


def ext_from_points(f, args, kw):
    out = SList(loc="spec:points")
    from .seq import viter
    for p in viter(spread(args), "spec:points"):
        out.append(p.coords[0])
    return line(f.__self__.__name__, out)


def ext_multi(f, args, kw):
    if kw:
        raise Unsupported("options of a multi-geometry")
    return collection(f.__self__.__name__, spread(args))


def ext_collection(f, args, kw):
    (ms,) = args or tuple(kw.values())
    return collection("GeometryCollection", force(ms))


def ext_shape(f, args, kw):
    (g,) = args or tuple(kw.values())
    g = force(g)
    if isinstance(g, Term) and g.head.startswith("pygeoif."):
        ctx().assumptions.add("pygeoif.shape gives an equal geometry of the same kind")
        return g
    raise Unsupported("shape of an unknown object")


P = "pygeoif.geometry."
for _c in ("Point", "LineString", "LinearRing"):
    stubs.EXT[f"{P}{_c}.from_coordinates"] = ext_simple
stubs.EXT.update({
    P + "Polygon.from_linear_rings": ext_polygon, P + "Point": ext_point, P + "LineString": ext_line, P + "LinearRing": ext_line,
    P + "LineString.from_points": ext_from_points, P + "MultiPoint.from_points": ext_multi,
    P + "MultiLineString.from_linestrings": ext_multi, P + "MultiPolygon.from_polygons": ext_multi,
    P + "GeometryCollection": ext_collection, "pygeoif.factories.shape": ext_shape,
})


# -- arbitrary geometries


def make(S, name, kind, dim):
    if kind is None:
        return unknown(name)
    if kind == "Point":
        return point(position(S, name, dim))
    if kind in ("LineString", "LinearRing"):
        return line(kind, S.seq(f"{name}.c", lambda n: position(S, n, dim), minlen=2, pytype=tuple))
    if kind == "Polygon":
        holes = S.seq(f"{name}.holes", lambda n: make(S, n, "LinearRing", dim))
        return polygon(make(S, f"{name}.shell", "LinearRing", dim), holes)
    member = {v: k for k, v in MULTI.items()}.get(kind)
    return collection(kind, S.seq(f"{name}.m", lambda n: make(S, n, member, dim), minlen=1))


def position(S, n, dim):
    return tuple(S.real(f"{n}.{i}") for i in range(dim))
