"""Arbitrary nested objects for symbolic runs.

A nested object is represented by the contract of its class: it writes itself
as one element (tagged with its identity, the precision and the verbosity it
was asked for) and reading that element gives the object back.  This is the
induction hypothesis over the nesting depth; every class is verified against
the same contract.
"""
from __future__ import annotations

import z3

from . import core, geo, stubs, xmlmodel
from .core import BOOL, STR, SymBool, SymStr, Term, Unsupported, ctx, deep_eq, force

_classes: dict = {}


def stub_class(cls):
    if cls in _classes:
        return _classes[cls]

    def __init__(self, name, ns, sp):
        d = self.__dict__
        d["_vf_name"] = name
        d["ns"] = ns
        d["name_spaces"] = sp

    def nonempty(self):
        if self.__dict__.get("_vf_solid"):
            return True
        n = f"{self._vf_name}?solid"
        ctx().inputs.setdefault(n, SymBool(z3.Bool(n)))
        return ctx().branch(z3.Bool(n))

    def etree_element(self, precision=None, verbosity=None):
        from fastkml.enums import Verbosity
        v = Verbosity.normal if verbosity is None else verbosity
        return element_of(self, precision, v.name)

    def __eq__(self, o):
        return self is force(o)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"attribute {name} of a nested object")

    def __str__(self):
        raise Unsupported("text of a nested object")

    def __setattr__(self, k, v):
        raise Unsupported("assignment to a nested object")

    extra = {}
    if hasattr(cls, "geometry"):
        extra["geometry"] = property(geometry_of)
    if cls.__name__ == "Coordinates":
        extra["coords"] = property(coords_of)
    k = type(cls.__name__, (cls,), {
        **extra,
        "__module__": "vfstub", "_vf_for": cls, "_vf_symbolic": True, "__init__": __init__, "__bool__": nonempty,
        "_vf_nonempty": nonempty, "etree_element": etree_element, "__eq__": __eq__, "__hash__": object.__hash__,
        "__getattr__": __getattr__, "__str__": __str__, "__repr__": lambda s: f"<child {s._vf_name}>",
        "__setattr__": __setattr__})
    _classes[cls] = k
    return k


term = geo.term


def coords_of(s):
    t = Term("coords", (s._vf_name,), pytype=tuple, truth=s._vf_nonempty())
    t.injective = True
    return t


def geometry_of(s):
    """The geometry of a nested KML geometry: one value per object, absent when empty."""
    if "_vf_geom" in s.__dict__:
        return s.__dict__["_vf_geom"]
    if not s._vf_nonempty():
        return None
    n = type(s).__name__
    kind = {"Point": "Point", "LineString": "LineString"}.get(n) or ("LinearRing" if n in ("LinearRing", "OuterBoundaryIs", "InnerBoundaryIs") else None)
    if kind:
        return geo.simple(kind, term("coords", (s._vf_name,), tuple))
    return term("geometry", (s._vf_name,))


def multi(f, geometries, *a, **k):
    """Contract of create_multigeometry: absent for no geometries."""
    if not bool(stubs.s_bool(geometries)):
        return None
    return term("multigeometry", (geometries,))


def child(name, q, mode="default", solid=False):
    from spec import base
    install()
    cls = base.resolve(q)
    o = stub_class(cls)(name, base.own_ns(q, mode), base.spaces(mode))
    o.__dict__["_vf_solid"] = solid
    return o


def element_of(o, precision, verbosity):
    from spec import base
    q = base.qname(o)
    e = xmlmodel.Element(o.ns + base.CLASSES[q]["tag"],
                         {"#obj": o._vf_name, "#precision": repr(precision), "#verbosity": verbosity})
    e.vf_obj = o
    return e


def install():
    c = ctx()
    c.contracts.setdefault("fastkml.base._XMLObject.class_from_element", read_child)
    c.contracts.setdefault("fastkml.geometry.create_multigeometry", multi)


def read_child(f, *args, **kw):
    element = kw.get("element")
    o = getattr(element, "vf_obj", None)
    if o is None:
        return f(*args, **kw)
    if type(o)._vf_for is not f.__self__:
        raise Unsupported("nested element read as another class")
    return o


# -- dates


def _kdt_class():
    from fastkml.times import KmlDateTime
    if KmlDateTime in _classes:
        return _classes[KmlDateTime]

    def __init__(self, e):
        self.__dict__["_vf_text"] = e

    def __eq__(self, o):
        o = force(o)
        if o is self:
            return True
        if isinstance(o, k):
            return core.sym_eq(self._vf_text, o._vf_text)
        return False

    def __ne__(self, o):
        return core.neg(self.__eq__(o))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(f"attribute {name} of a date")

    def __str__(self):
        return self._vf_text

    k = type("KmlDateTime", (KmlDateTime,), {
        "__module__": "vfstub", "_vf_for": KmlDateTime, "_vf_symbolic": True, "_vf_plain": True, "__init__": __init__,
        "__bool__": lambda s: True, "__eq__": __eq__, "__ne__": __ne__, "__hash__": object.__hash__,
        "__str__": __str__, "__getattr__": __getattr__, "__repr__": lambda s: f"<date {s._vf_text!r}>"})
    _classes[KmlDateTime] = k
    return k


def kdt(name):
    c = ctx()
    t = SymStr(z3.Const(f"{name}.str", STR))
    c.app("strip", t.e, STR)
    c.add(uf_strip(t.e) == t.e)
    c.add(t.e != z3.StringVal(""))
    c.add(core.uf("dt_ok", STR, BOOL)(t.e))
    t.clean = "token"
    c.assumptions.add("contract of KmlDateTime: str is a non-empty token and parse(str(d)) equals d (verified for C06)")
    c.contracts.setdefault("fastkml.times.KmlDateTime.parse", parse)
    k = _kdt_class()(t)
    c.memo.setdefault("kdts", []).append(k)
    return k


def uf_strip(e):
    return core.uf("strip", STR, STR)(e)


def parse(f, text, *a, **kw):
    ok, v = parsed(text)
    if not ok:
        raise ValueError("not a date")
    return v


def parsed(text):
    """Contract of KmlDateTime.parse: a text is accepted or not; equal texts give equal dates."""
    c = ctx()
    c.contracts.setdefault("fastkml.times.KmlDateTime.parse", parse)
    text = force(text)
    e = core.str_expr(text)
    for k in c.memo.setdefault("kdts", []):
        if deep_eq(k._vf_text, text) is True:
            return True, k
    if not c.branch(core.uf("dt_ok", STR, BOOL)(e)):
        return False, None
    t = SymStr(e)
    k = _kdt_class()(t)
    c.memo["kdts"].append(k)
    return True, k
